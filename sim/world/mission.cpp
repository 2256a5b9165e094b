#include "mission.hpp"
#include <sys/stat.h>
#include <cmath>
using namespace s2e::components;
namespace sim {
static std::string K(int def, const char* k) { return Fmt("s%d.%s", def, k); }

void GenTiming(Rng& r, Script& s, const MissionOpt& o) {
  double dt = r.Pick<double>({0.05, 0.1, 0.1, 0.5, 1, 1, 2, 5});
  s.p["dt"] = dt; s.p["steps"] = r.Int(o.min_steps, o.max_steps);
  auto mult = [&] { return r.Chance(0.6) ? 1.0 : (double)r.Int(2, 6); };
  s.p["m_att"] = mult(); s.p["m_orb"] = mult(); s.p["m_th"] = mult(); s.p["m_comp"] = mult(); s.p["m_log"] = mult();
  s.p["year"] = r.Int(2018, 2026); s.p["month"] = r.Int(1, 12); s.p["day"] = r.Int(1, 28); s.p["hour"] = r.Int(0, 23); s.p["min"] = r.Int(0, 59); s.p["sec"] = r.Int(0, 59);
  s.p["seed"] = (double)r.Int(1, 2000000000);
  s.p["gs"] = o.ground && r.Chance(0.3); s.p["rot0"] = r.Int(0, 2);
}
void GenCraft(Rng& r, Script& s, int d, const MissionOpt& o) {
  s.p[K(d, "seed")] = (double)r.Int(1, 1000000000);
  s.p[K(d, "att")] = r.Chance(0.55) ? 0 : r.Int(0, o.exotic ? 2 : 1);
  s.p[K(d, "init")] = r.Chance(0.2);
  s.p[K(d, "orb")] = r.Chance(0.5) ? 0 : r.Int(0, o.exotic ? 3 : 2);
  s.p[K(d, "elements")] = r.Chance(0.3);
  s.p[K(d, "dist")] = r.Chance(0.15) ? 0 : (double)r.Int(0, 127);
  s.p[K(d, "env")] = (double)r.Int(0, 31);
  s.p[K(d, "noise")] = o.noise >= 0 ? o.noise : r.Chance(0.6);
  long parts = 0; for (int b = 0; b < 16; b++) if (r.Chance(0.55)) parts |= 1l << b;
  if (r.Chance(0.1)) parts = kAllParts;
  s.p[K(d, "parts")] = (double)(parts & o.parts_mask);
  s.p[K(d, "thermal")] = r.Chance(0.3) ? r.Int(1, 2) : 0;
  s.p[K(d, "log")] = r.Chance(0.5) ? 0xffffff : (double)r.Int(0, 0xffffff);
}
void GenEvents(Rng& r, Script& s, const MissionOpt&) {
  long n = s.L("n"), steps = s.L("steps"); long k = r.Int(0, 14);
  for (long i = 0; i < k; i++) {
    double d = (double)r.Int(0, n - 1); long t = r.Int(1, std::max(1l, steps - 1)); V3 v = r.Uni() * RandDir(r);
    switch (r.Int(0, 6)) {
      case 0: s.Add(t, "mtq", {d, 0.2 * v[0], 0.2 * v[1], 0.2 * v[2]}); break;
      case 1: s.Add(t, "rw", {d, 2e-3 * v[0], (double)r.Chance(0.8)}); break;
      case 2: s.Add(t, "thr", {d, r.Uni(-0.2, 1.2)}); break;
      case 3: s.Add(t, "force", {d, v[0], v[1], v[2], (double)r.Int(0, 2)}); break;
      case 4: s.Add(t, "torque", {d, 1e-2 * v[0], 1e-2 * v[1], 1e-2 * v[2]}); break;
      default: s.Add(t, "power", {d, (double)r.Int(0, 7), r.Chance(0.5) ? 0.0 : 5.0}); break;
    }
  }
  s.SortEvents();
}
void GenMission(Rng& r, Script& s, const MissionOpt& o) {
  GenTiming(r, s, o); long n = r.Int(1, o.max_craft); s.p["n"] = n;
  for (int d = 0; d < n; d++) GenCraft(r, s, d, o);
  GenEvents(r, s, o);
}
std::vector<int> AllDefs(const Script& s) { std::vector<int> v; for (int d = 0; d < s.L("n"); d++) v.push_back(d); return v; }

void WriteGravityFiles() {
  std::string e, l = "1738.0,4902.8001,0,0,0\n";
  for (int n = 2; n <= 8; n++) for (int m = 0; m <= n; m++) {
    double c = n == 2 && m == 0 ? -4.84e-4 : 1e-6 / (n * n) * std::cos(7.0 * n + 3 * m), q = m ? 1e-6 / (n * n) * std::sin(5.0 * n + 2 * m) : 0;
    e += Fmt("%4d%4d %.12E %.12E 0 0\n", n, m, c, q);
  }
  for (int n = 1; n <= 8; n++) for (int m = 0; m <= n; m++) l += Fmt("%d,%d,%.12E,%.12E,0,0\n", n, m, n == 1 ? 0.0 : 1e-4 / (n * n) * std::cos(3.0 * n + m), m && n > 1 ? 1e-5 / n * std::sin(2.0 * n + m) : 0.0);
  WriteFile("settings/environment/gravity_field/earth.txt", e); WriteFile("settings/environment/gravity_field/moon.txt", l);
}
void SilenceComponents(Settings& st, int sc) {
  for (const char* f : {"gyro_sensor", "magnetometer", "star_sensor", "sun_sensor", "gnss_receiver", "magnetorquer", "thruster", "force_generator", "torque_generator", "angular_velocity_observer", "attitude_observer", "orbit_observer"})
    for (auto& i : st.Comp(sc, f).items) for (const char* w : {"standard_deviation", "random_walk", "white_noise", "normal_random"}) if (i.key.find(w) != std::string::npos) i.val = "0";
}
Settings MissionSettings(const Script& s, const std::vector<int>& defs, bool ground) {
  int n = (int)defs.size(); Settings st(n, ground && s.P("gs") ? 1 : 0); double dt = s.P("dt", 1);
  auto& b = st.base; const char* T = "TIME";
  b.Set(T, "simulation_start_time_utc", Fmt("%d/%02d/%02d %02d:%02d:%02d", (int)s.P("year", 2020), (int)s.P("month", 4), (int)s.P("day", 1), (int)s.P("hour"), (int)s.P("min"), (int)s.P("sec")));
  b.Set(T, "simulation_step_s", dt).Set(T, "simulation_duration_s", dt * (s.P("steps", 10) - 0.5)).Set(T, "attitude_update_period_s", dt * s.P("m_att", 1)).Set(T, "orbit_update_period_s", dt * s.P("m_orb", 1))
      .Set(T, "thermal_update_period_s", dt * s.P("m_th", 1)).Set(T, "component_update_period_s", dt * s.P("m_comp", 1)).Set(T, "log_output_period_s", dt * s.P("m_log", 1))
      .Set(T, "attitude_integral_step_s", dt * s.P("m_att", 1) / 10).Set(T, "orbit_integral_step_s", dt * s.P("m_orb", 1)).Set(T, "thermal_integral_step_s", dt * s.P("m_th", 1));
  b.Set("RANDOMIZE", "rand_seed", Fmt("%ld", s.L("seed", 1)));
  b.Set("CELESTIAL_INFORMATION", "rotation_mode(0)", s.L("rot0") == 0 ? "FULL" : s.L("rot0") == 1 ? "SIMPLE" : "DISABLE");
  st.Quiet();
  for (int i = 0; i < n; i++) {
    int d = defs[i]; Rng r(s.L(K(d, "seed"), 1)); auto P = [&](const char* k, double def = 0) { return s.P(K(d, k), def); };
    auto& a = st.sat[i]; const char *A = "ATTITUDE", *C = "CONTROLLED_ATTITUDE", *O = "ORBIT"; long env = (long)P("env", 31), dist = (long)P("dist"), parts = (long)P("parts"), lg = (long)P("log", 0xffffff);
    // attitude
    int att = (int)P("att");
    a.Set(A, "propagate_mode", att == 0 ? "RK4" : att == 1 ? "CONTROLLED" : "CANTILEVER_VIBRATION").Set(A, "initialize_mode", P("init") ? "CONTROLLED" : "MANUAL");
    a.Vec(A, "initial_angular_velocity_b_rad_s", r.LogUni(1e-4, 0.2) * RandDir(r)); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) a.Set(A, Fmt("initial_quaternion_i2b(%d)", k), q[k]);
    a.Vec(A, "initial_torque_b_Nm", r.Chance(0.5) ? Vec(0, 0, 0) : 1e-5 * RandDir(r));
    const std::vector<const char*> modes = {"INERTIAL_STABILIZE", "SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "EARTH_SURFACE_POINTING", "ORBIT_NORMAL_POINTING"};
    int m1 = r.Int(0, 5), m2 = (m1 + r.Int(1, 5)) % 6; if ((m1 == 2 && m2 == 4) || (m1 == 4 && m2 == 2)) m2 = 5; if (m1 && !m2) m2 = m1 == 1 ? 3 : 1;
    a.Set(C, "main_mode", modes[m1]).Set(C, "sub_mode", modes[m2]); V3 u = RandDir(r), w = RandDir(r); w = w - dot(w, u) * u; w = (1 / Norm(w)) * w; w = w + 0.3 * u; w = (1 / Norm(w)) * w;
    a.Vec(C, "main_pointing_direction_b", u).Vec(C, "sub_pointing_direction_b", w).Set(C, "target_position_latitude_deg", r.Uni(-60, 60)).Set(C, "target_position_longitude_deg", r.Uni(-180, 180)).Set(C, "target_position_altitude_m", r.Uni(0, 3000));
    // orbit
    int orb = (int)P("orb"); double rad = r.Chance(0.7) ? r.Uni(6.65e6, 7.6e6) : r.LogUni(8e6, 4.3e7), e = r.Uni(0, 0.01); V3 x = RandDir(r), y = RandDir(r); y = y - dot(y, x) * x; y = (1 / Norm(y)) * y;
    V3 pos = rad * x, vel = std::sqrt(3.986004415e14 / rad * (1 + e)) * y;
    a.Set(O, "propagate_mode", orb == 0 ? "RK4" : orb == 1 ? "KEPLER" : orb == 2 ? "ENCKE" : "SGP4").Vec(O, "initial_position_i_m", pos).Vec(O, "initial_velocity_i_m_s", vel);
    a.Set(O, "initialize_mode", P("elements") ? "ORBITAL_ELEMENTS" : "POSITION_VELOCITY_I").Set(O, "semi_major_axis_m", rad).Set(O, "eccentricity", e).Set(O, "inclination_rad", r.Uni(0.1, 3.0)).Set(O, "raan_rad", r.Uni(0, 6.28)).Set(O, "argument_of_perigee_rad", r.Uni(0, 6.28));
    a.Enable(O, "logging", lg & 1);
    if (P("thermal")) { a.Set("THERMAL", "calculation", "ENABLE"); if (P("thermal") > 1) a.Set("THERMAL", "solar_calc_setting", "ENABLE"); }
    // environment
    auto& le = st.local[i];
    le.Enable("MAGNETIC_FIELD_ENVIRONMENT", "calculation", env & 1).Enable("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", env & 2).Enable("ATMOSPHERE", "calculation", env & 4).Enable("EARTH_ALBEDO", "calculation", env & 8).Enable("EARTH_INFRARED", "calculation", env & 16);
    const std::vector<const char*> am = {"STANDARD", "STANDARD", "HARRIS_PRIESTER", "NRLMSISE00"}; le.Set("ATMOSPHERE", "model", r.Pick(am));
    le.Enable("MAGNETIC_FIELD_ENVIRONMENT", "logging", lg & 2).Enable("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "logging", lg & 4).Enable("ATMOSPHERE", "logging", lg & 8).Enable("LOCAL_CELESTIAL_INFORMATION", "logging", lg & 16);
    // disturbances
    const std::vector<const char*> ds = {"GRAVITY_GRADIENT", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD"};
    for (int k = 0; k < 7; k++) st.disturb[i].Enable(ds[k], "calculation", k < 6 && ((dist >> k) & 1)).Enable(ds[k], "logging", (lg >> (5 + k)) & 1);
    st.disturb[i].Set("GEOPOTENTIAL", "coefficients_file_path", "SETTINGS_DIR_FROM_EXE/environment/gravity_field/earth.txt").Set("GEOPOTENTIAL", "degree", (double)r.Int(2, 6)).Set("LUNAR_GRAVITY_FIELD", "coefficients_file_path", "SETTINGS_DIR_FROM_EXE/environment/gravity_field/moon.txt").Set("LUNAR_GRAVITY_FIELD", "degree", (double)r.Int(2, 6));
    st.disturb[i].Set("THIRD_BODY_GRAVITY", "number_of_third_body", 2.0);
    // structure
    auto& su = st.structure[i]; double I[3] = {r.LogUni(0.05, 5), 0, 0}; I[1] = I[0] * r.Uni(0.6, 1.5); I[2] = (I[0] + I[1]) * r.Uni(0.55, 0.95); if (I[2] < std::fabs(I[0] - I[1])) I[2] = std::fabs(I[0] - I[1]) * 1.2;
    for (int k = 0; k < 9; k++) su.Set("KINEMATIC_PARAMETERS", Fmt("inertia_tensor_kgm2(%d)", k), k % 4 ? 0.0 : I[k / 4]).Set("CANTILEVER_PARAMETERS", Fmt("inertia_tensor_cantilever_kgm2(%d)", k), k % 4 ? 0.0 : 0.1 * I[k / 4]);
    su.Set("KINEMATIC_PARAMETERS", "mass_kg", r.LogUni(3, 300)).Vec("KINEMATIC_PARAMETERS", "center_of_gravity_b_m", 0.05 * RandDir(r)).Set("CANTILEVER_PARAMETERS", "intrinsic_angular_velocity_cantilever_rad_s", r.Uni(0.2, 1.5) / (s.P("dt", 1) * s.P("m_att", 1)));
    // components
    auto& an = st.Comp(i, "spacecraft_antenna"); an.Set("ANTENNA_1", "tx_antenna_gain_model", "ISOTROPIC").Set("ANTENNA_1", "rx_antenna_gain_model", "ISOTROPIC");
    auto pre = [&](const char* f, const char* sec, const char* key = "prescaler") { st.Comp(i, f).Set(sec, key, (double)r.Int(1, 3)); };
    pre("gyro_sensor", "GYRO_SENSOR_1"); pre("magnetometer", "MAGNETOMETER_1"); pre("star_sensor", "STAR_SENSOR_1"); pre("sun_sensor", "SUN_SENSOR_1"); pre("gnss_receiver", "GNSS_RECEIVER_1"); pre("magnetorquer", "MAGNETORQUER_1");
    pre("reaction_wheel", "REACTION_WHEEL_1"); pre("thruster", "THRUSTER_1"); pre("solar_array_panel", "SOLAR_ARRAY_PANEL_1"); pre("battery", "BATTERY_1"); pre("pcu_initial_study", "PCU_INITIAL_STUDY_1");
    st.Comp(i, "gnss_receiver").Set("GNSS_RECEIVER_1", "antenna_model", "SIMPLE"); double cs = dt * s.P("m_comp", 1);
    auto& sn = st.Comp(i, "star_sensor"); sn.Set("STAR_SENSOR_1", "output_delay_s", cs * r.Int(0, 3)).Set("STAR_SENSOR_1", "output_interval_s", cs * r.Int(1, 3)).Set("STAR_SENSOR_1", "standard_deviation_orthogonal_direction_rad", 1e-4).Set("STAR_SENSOR_1", "standard_deviation_sight_direction_rad", 1e-3);
    auto& rw = st.Comp(i, "reaction_wheel"); rw.Set("REACTION_WHEEL_1", "dead_time_s", cs * r.Int(0, 3)).Set("REACTION_WHEEL_1", "time_constant_s", cs * r.Uni(0.5, 5)).Set("REACTION_WHEEL_1", "initial_motor_drive_flag", (double)r.Chance(0.5)).Set("REACTION_WHEEL_1", "initial_angular_velocity_rad_s", r.Uni(-300, 300));
    if (r.Chance(0.5) && P("noise")) rw.Set("REACTION_WHEEL_JITTER_1", "jitter_calculation", "ENABLE").Set("REACTION_WHEEL_JITTER_1", "jitter_logging", "ENABLE").Set("REACTION_WHEEL_JITTER_1", "considers_structural_resonance", "DISABLE");
    for (int k = 0; k < 3; k++) {
      st.Comp(i, "gyro_sensor").Set("SENSOR_BASE_GYRO_SENSOR_1", Fmt("random_walk_standard_deviation_c_rad_s(%d)", k), 1e-5).Set("SENSOR_BASE_GYRO_SENSOR_1", Fmt("random_walk_limit_c_rad_s(%d)", k), 1e-4);
      st.Comp(i, "magnetorquer").Set("MAGNETORQUER_1", Fmt("random_walk_standard_deviation_c_Am2(%d)", k), 1e-4).Set("MAGNETORQUER_1", Fmt("random_walk_limit_c_Am2(%d)", k), 1e-3).Set("MAGNETORQUER_1", Fmt("white_noise_standard_deviation_c_Am2(%d)", k), 1e-3).Set("MAGNETORQUER_1", Fmt("constant_bias_noise_c_Am2(%d)", k), 1e-3);
    }
    if (!P("noise")) { st.AllNoiseOff(i); SilenceComponents(st, i); }
    for (const char* f : {"angular_velocity_observer", "attitude_observer", "battery", "component_interference", "force_generator", "orbit_observer", "telescope", "torque_generator"}) st.Comp(i, f);
    (void)parts;
  }
  return st;
}

Kit::Kit(Craft& c, Parts& p, int parts, const std::string& dir, int def_) : clk(&c.Clock()), def(def_) {
  double step = c.global->GetSimulationTime().GetComponentStepTime_s(); auto F = [&](const char* n) { return dir + "/components/" + n + ".ini"; };
  auto& dyn = c.Dyn(); auto& env = c.Env();
  for (int i = 0; i < 8; i++) { port.emplace_back(new PowerPort(i, 10.0)); port.back()->SetVoltage_V(5.0); }
  auto on = [&](int b) { return (parts & b) != 0; };
  if (on(kGyro)) gyro.reset(new GyroSensor(InitGyroSensor(clk, port[0].get(), 1, F("gyro_sensor"), step, &dyn)));
  if (on(kMag)) mag.reset(new Magnetometer(InitMagnetometer(clk, port[1].get(), 1, F("magnetometer"), step, &env.GetGeomagneticField())));
  if (on(kStar)) star.reset(new StarSensor(InitStarSensor(clk, port[2].get(), 1, F("star_sensor"), step, &dyn, &env)));
  if (on(kSun)) sun.reset(new SunSensor(InitSunSensor(clk, port[3].get(), 1, F("sun_sensor"), &env.GetSolarRadiationPressure(), &env.GetCelestialInformation())));
  if (on(kGnss)) gnss.reset(new GnssReceiver(InitGnssReceiver(clk, port[4].get(), 1, F("gnss_receiver"), &dyn, &c.global->GetGnssSatellites(), &c.global->GetSimulationTime())));
  if (on(kMtq)) mtq.reset(new Magnetorquer(InitMagnetorquer(clk, port[5].get(), 1, F("magnetorquer"), step, &env.GetGeomagneticField())));
  if (on(kRw)) rw.reset(new ReactionWheel(InitReactionWheel(clk, port[6].get(), 1, F("reaction_wheel"), step)));
  if (on(kTorque)) torque.reset(new TorqueGenerator(InitializeTorqueGenerator(clk, F("torque_generator"), &dyn)));
  if (on(kThr)) thr.reset(new SimpleThruster(InitSimpleThruster(clk, port[7].get(), 1, F("thruster"), &c.Struct(), &dyn)));
  if (on(kTele)) tele.reset(new Telescope(InitTelescope(clk, 1, F("telescope"), &dyn.GetAttitude(), &c.global->GetHipparcosCatalog(), &env.GetCelestialInformation(), &dyn.GetOrbit())));
  if (on(kForce)) force.reset(new ForceGenerator(InitializeForceGenerator(clk, F("force_generator"), &dyn)));
  if (on(kRateObs)) rate_obs.reset(new AngularVelocityObserver(InitializeAngularVelocityObserver(clk, F("angular_velocity_observer"), step, dyn.GetAttitude())));
  if (on(kAttObs)) att_obs.reset(new AttitudeObserver(InitializeAttitudeObserver(clk, F("attitude_observer"), dyn.GetAttitude())));
  if (on(kOrbObs)) orb_obs.reset(new OrbitObserver(InitializeOrbitObserver(clk, F("orbit_observer"), dyn.GetOrbit())));
  if (on(kPower)) {
    sap.reset(new SolarArrayPanel(InitSAP(clk, 1, F("solar_array_panel"), &env.GetSolarRadiationPressure(), &env.GetCelestialInformation(), step)));
    bat.reset(new Battery(InitBAT(clk, 1, F("battery"), step))); pcu.reset(new PcuInitialStudy(InitPCU_InitialStudy(clk, 1, F("pcu_initial_study"), {sap.get()}, bat.get(), step)));
  }
  if (on(kInterf) && mag && mtq) interf.reset(new MtqMagnetometerInterference(F("component_interference"), *mag, *mtq));
  p.force = [this] { return Force(); }; p.torque = [this] { return Torque(); };
  p.interference = [this] { if (interf) interf->UpdateInterference(); }; p.log = [this](s2e::logger::Logger& l) { LogSetup(l); };
}
V3 Kit::Force() const { V3 f(0.0); if (thr) f += thr->GetOutputThrust_b_N(); if (force) f += force->GetGeneratedForce_b_N(); return f; }
V3 Kit::Torque() const {
  V3 t(0.0); if (mtq) t += mtq->GetOutputTorque_b_Nm(); if (rw) t += rw->GetOutputTorque_b_Nm(); if (thr) t += thr->GetOutputTorque_b_Nm(); if (torque) t += torque->GetGeneratedTorque_b_Nm(); return t;
}
void Kit::Command(const Event& e) {
  V3 v = Vec(e.A(1), e.A(2), e.A(3));
  if (e.kind == "mtq" && mtq) mtq->SetOutputMagneticMoment_c_Am2(v);
  if (e.kind == "rw" && rw) { rw->SetDriveFlag(e.I(2)); rw->SetTargetTorque_rw_Nm(e.A(1)); }
  if (e.kind == "thr" && thr) thr->SetDuty(e.A(1));
  if (e.kind == "force" && force) { if (e.I(4) == 0) force->SetForce_b_N(v); else if (e.I(4) == 1) force->SetForce_i_N(v); else force->SetForce_rtn_N(v); }
  if (e.kind == "torque" && torque) torque->SetTorque_b_Nm(v);
  if (e.kind == "power") port[e.I(1) % 8]->SetVoltage_V(e.A(2));
}
void Kit::LogSetup(s2e::logger::Logger& l) {
  int b = 0; auto add = [&](s2e::logger::ILoggable* x, int bit) { if (x && (log_mask & bit)) l.AddLogList(x); }; (void)b;
  add(gyro.get(), kGyro); add(mag.get(), kMag); add(star.get(), kStar); add(sun.get(), kSun); add(gnss.get(), kGnss); add(mtq.get(), kMtq); add(rw.get(), kRw); add(thr.get(), kThr); add(tele.get(), kTele);
  add(force.get(), kForce); add(torque.get(), kTorque); add(rate_obs.get(), kRateObs); add(att_obs.get(), kAttObs); add(orb_obs.get(), kOrbObs); add(sap.get(), kPower); add(bat.get(), kPower); add(pcu.get(), kPower);
}
void SampleTruth(Craft& c, Row& r) {
  auto& a = c.Dyn().GetAttitude(); auto& o = c.Dyn().GetOrbit();
  r.V("rate", a.GetAngularVelocity_b_rad_s()); r.Q("quaternion", a.GetQuaternion_i2b()); r.D("momentum", a.GetTotalAngularMomentNorm_Nms()); r.D("energy", a.GetKineticEnergy_J());
  r.V("position", o.GetPosition_i_m()); r.V("velocity", o.GetVelocity_i_m_s()); r.V("position ecef", o.GetPosition_ecef_m()); r.V("velocity ecef", o.GetVelocity_ecef_m_s()); r.V("velocity body", o.GetVelocity_b_m_s());
  auto g = o.GetGeodeticPosition(); r.D("latitude", g.GetLatitude_rad()); r.D("longitude", g.GetLongitude_rad()); r.D("altitude", g.GetAltitude_m());
  auto th = c.Dyn().GetTemperature(); for (auto& nd : th.GetNodes()) r.D("temperature", nd.GetTemperature_K());
}
void SampleField(Craft& c, Row& r) {
  auto& e = c.Env(); auto& s = e.GetSolarRadiationPressure();
  r.D("solar pressure", s.GetPressure_N_m2()); r.D("shadow", s.GetShadowCoefficient()); r.D("density", e.GetAtmosphere().GetAirDensity_kg_m3());
  r.V("field i", e.GetGeomagneticField().GetGeomagneticField_i_nT()); r.V("field b", e.GetGeomagneticField().GetGeomagneticField_b_nT());
  r.D("albedo", e.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2()); r.D("infrared", e.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2());
  for (const char* b : {"SUN", "EARTH", "MOON"}) { r.V(b, e.GetCelestialInformation().GetPositionFromSpacecraft_b_m(b)); r.V(b, e.GetCelestialInformation().GetPositionFromSpacecraft_i_m(b)); }
  r.V("disturbance torque", c.Dist().GetTorque_b_Nm()); r.V("disturbance force", c.Dist().GetForce_b_N()); r.V("disturbance acceleration", c.Dist().GetAcceleration_i_m_s2());
}
void SampleParts(const Kit& k, Row& r) {
  if (k.gyro) r.V("gyro", k.gyro->GetMeasuredAngularVelocity_c_rad_s());
  if (k.mag) r.V("magnetometer", k.mag->GetMeasuredMagneticField_c_nT());
  if (k.star) { r.Q("star sensor", k.star->GetMeasuredQuaternion_i2c()); r.D("star sensor error", k.star->GetErrorFlag()); }
  if (k.sun) { r.V("sun sensor", k.sun->GetMeasuredSunDirection_c()); r.D("sun sensor detection", k.sun->GetSunDetectedFlag()); r.D("sun sensor illuminance", k.sun->GetSolarIlluminance_W_m2()); r.D("sun sensor alpha", k.sun->GetSunAngleAlpha_rad()); r.D("sun sensor beta", k.sun->GetSunAngleBeta_rad()); }
  if (k.gnss) { r.V("gnss position", k.gnss->GetMeasuredPosition_ecef_m()); r.V("gnss velocity", k.gnss->GetMeasuredVelocity_ecef_m_s()); auto g = k.gnss->GetMeasuredGeodeticPosition(); r.D("gnss altitude", g.GetAltitude_m()); }
  if (k.mtq) { r.V("magnetorquer torque", k.mtq->GetOutputTorque_b_Nm()); r.V("magnetorquer moment", k.mtq->GetOutputMagneticMoment_c_Am2()); }
  if (k.rw) { r.V("wheel torque", k.rw->GetOutputTorque_b_Nm()); r.D("wheel speed", k.rw->GetAngularVelocity_rad_s()); r.V("wheel momentum", k.rw->GetAngularMomentum_b_Nms()); }
  if (k.thr) { r.V("thrust", k.thr->GetOutputThrust_b_N()); r.V("thruster torque", k.thr->GetOutputTorque_b_Nm()); }
  if (k.force) { r.V("generated force b", k.force->GetGeneratedForce_b_N()); r.V("generated force i", k.force->GetGeneratedForce_i_N()); r.V("generated force rtn", k.force->GetGeneratedForce_rtn_N()); }
  if (k.torque) r.V("generated torque", k.torque->GetGeneratedTorque_b_Nm());
  if (k.rate_obs) r.V("rate observer", k.rate_obs->GetAngularVelocity_b_rad_s());
  if (k.att_obs) r.Q("attitude observer", k.att_obs->GetQuaternion_i2b());
  if (k.orb_obs) { r.V("orbit observer position", k.orb_obs->GetPosition_i_m()); r.V("orbit observer velocity", k.orb_obs->GetVelocity_i_m_s()); }
  if (k.bat) { r.D("panel power", k.sap->GetPowerGeneration_W()); r.D("battery voltage", k.bat->GetVoltage_V()); }
  if (k.tele) { r.D("telescope sun", k.tele->GetIsSunInForbiddenAngle()); r.D("telescope earth", k.tele->GetIsEarthInForbiddenAngle()); r.D("telescope moon", k.tele->GetIsMoonInForbiddenAngle()); }
}
Case::Hooks Mission::Hooks() {
  kits.clear(); Case::Hooks h; size_t pos = 0;
  h.build = [this, pos](Craft& c, Parts& p) mutable {
    int d = order[pos]; auto k = new Kit(c, p, (int)s.P(K(d, "parts")), dir + "/sat" + std::to_string(pos), d); k->log_mask = (int)s.P(K(d, "logparts"), kAllParts);
    p.owned.emplace_back(std::shared_ptr<void>((void*)k, [](void* x) { delete (Kit*)x; })); kits.push_back(k); pos++;
  };
  h.ready = [this](Case& c) { if (ready) ready(c); };
  h.before = [this](Case& c, long step) { for (auto& e : s.ev) if (e.t == step) for (auto* k : kits) if (k->def == e.I(0)) k->Command(e); if (before) before(c, step); };
  h.after = [this](Case& c, long step) { if (after) after(c, step); };
  return h;
}
}  // namespace sim
