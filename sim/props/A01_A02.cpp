// Actuators of a complete simulation under seeded command histories, power cycles, attitude jumps and shifts of the centre of mass.
// A recorder component with the schedule of each actuator judges its output against the command history (A01), and wheels against their momentum (A02).
#include <array>
#include <cmath>
#include <map>
#include <math_physics/randomization/global_randomization.hpp>
#include <sstream>
#include "world/mission.hpp"
using namespace sim;
using namespace s2e::components;
namespace {
const double kDeg = M_PI / 180;
enum Kind { kMtqA, kThrA, kForceA, kTorqueA, kWheelA };
const char* kName[] = {"magnetorquer", "thruster", "force generator", "torque generator", "reaction wheel"};
struct Recorder : public Component {
  Recorder(int pre, s2e::environment::ClockGenerator* clk, std::function<void()> f) : Component(pre, clk), on(f) {}
  std::function<void()> on;
  void MainRoutine(const int) override { on(); }
};
struct Range { double lo = 0, hi = 0; void Zero() { lo = std::min(lo, 0.0); hi = std::max(hi, 0.0); } };
// dead time and first order lag; a pause widens what is still inside to the hull with zero
struct Delay {
  std::vector<Range> q; Range y; double co = 0, ci = 1;
  void Init(double dead, double tau, double step) { q.assign((size_t)std::floor(dead / step) + 1, Range()); co = tau / (tau + step); ci = step / (tau + step); }
  Range Push(double u) { Range f = q.front(); q.erase(q.begin()); Range n; n.lo = n.hi = u; q.push_back(n); y.lo = co * y.lo + ci * f.lo; y.hi = co * y.hi + ci * f.hi; return y; }
  void Clear() { for (auto& e : q) e = Range(); y.Zero(); }
  void Pause() { for (auto& e : q) e.Zero(); y.Zero(); }
};
struct Act {
  int k = 0, type = 0, pre = 1; double tick = 1; bool noise_w = false, noise_r = false, fresh = false, held = true, cycled = false; std::unique_ptr<PowerPort> port; Quat b2c; long ticks = 0;
  std::function<V3()> force, torque; std::function<void(const Event&)> command; std::function<void(bool)> judge; std::function<void()> each; V3 last_f{0.0}, last_t{0.0};
  std::string Who(double t) const { return Fmt("%s %d at %.9g s", kName[type], k, t); }
};
Script GenFor(uint64_t seed, bool thorough, bool wheel) {
  Rng r(seed); Script s; s.p["seed"] = (double)r.Int(1, 2000000000); s.p["geo"] = (double)r.Int(1, 1000000000); s.p["dt"] = r.Pick<double>({0.01, 0.1, 0.1, 0.5, 1}); s.p["m_comp"] = r.Chance(0.7) ? 1 : (double)r.Int(2, 4); s.p["m_att"] = r.Chance(wheel ? 0.9 : 0.6) ? 1 : (double)r.Int(2, 4);
  s.p["steps"] = r.Chance(0.15) ? r.Int(300, 700) : r.Int(10, thorough ? 250 : 100); s.p["spin"] = r.Chance(0.2) ? 0 : r.LogUni(1e-4, 0.3); long n = r.Int(1, 5); s.p["n"] = n; std::vector<int> ty;
  for (int i = 0; i < n; i++) { auto K = [&](const char* k) { return Fmt("k%d.%s", i, k); }; ty.push_back(wheel ? kWheelA : (int)r.Int(0, 3)); s.p[K("type")] = ty.back(); s.p[K("pre")] = r.Chance(0.5) ? r.Int(0, 1) : (double)r.Int(2, 6); s.p[K("noise")] = (double)r.Pick<long>({0, 0, 1, 2, 3}); s.p[K("seed")] = (double)r.Int(1, 1000000000); s.p[K("port")] = r.Chance(0.7); if (wheel) { s.p[K("jitter")] = r.Chance(0.3) ? r.Int(1, 2) : 0; s.p[K("w0")] = r.Chance(0.5) ? 0 : r.Gauss() * 100; s.p[K("drive")] = r.Chance(0.5); } }
  long e = r.Int(1, 20), steps = s.L("steps");
  for (long i = 0; i < e; i++) {
    long t = r.Int(1, steps); long k = r.Int(0, n - 1); double big = r.Chance(0.2) ? 3 : 1;
    switch (r.Int(0, 9)) {
      case 0: case 1: s.Add(t, "power", {(double)k, r.Chance(0.5) ? 0.0 : 5.0}); break;
      case 2: if (!wheel) s.Add(t, "jump", {(double)r.Int(1, 1000000000)}); else s.Add(t, "limit", {(double)k, r.LogUni(10, 20000)}); break;
      case 3: if (!wheel) s.Add(t, "balance", {r.Gauss() * 0.2, r.Gauss() * 0.2, r.Gauss() * 0.2}); else s.Add(t, "drive", {(double)k, (double)r.Chance(0.6)}); break;
      default: if (r.Chance(0.15)) s.Add(t, "cmd", {(double)k, 0, 0, 0, (double)r.Int(0, 2)}); else s.Add(t, "cmd", {(double)k, big * r.Uni(-1, 1), big * r.Uni(-1, 1), big * r.Uni(-1, 1), (double)r.Int(0, 2)}); if (wheel && r.Chance(0.7)) s.Add(t, "drive", {(double)k, 1}); break;
    }
  }
  // wheels with jitter are switched off and on while they turn: nothing of the old jitter may come back
  if (wheel) for (long k = 0; k < n; k++) if (s.p[Fmt("k%ld.jitter", k)] > 0 && s.p[Fmt("k%ld.port", k)] > 0 && r.Chance(0.5)) for (long j = 0, m = r.Int(1, 3); j < m; j++) { long t = r.Int(1, steps), u = t + r.Int(1, 8); s.Add(t, "power", {(double)k, 0.0}); s.Add(u, "power", {(double)k, 5.0}); }
  if (!wheel && r.Chance(0.05)) { s.p["steps"] = r.Int(450, 700); s.p["m_comp"] = 1; s.p["k0.type"] = 0; s.p["k0.noise"] = 2; s.p["k0.pre"] = 1; s.p["k0.port"] = (double)r.Chance(0.5); s.p["k0.walk"] = 1; for (auto& e : s.ev) if (e.kind == "power" && e.I(0) == 0) e.kind = "cmd"; }  // a walk seen long enough
  s.SortEvents(); return s;
}
void Run(const Script& s, Ctx& c) {
  double dt = s.P("dt", 1), comp = dt * std::max(1L, s.L("m_comp", 1)); long steps = std::max(1L, s.L("steps", 5)), m_att = std::max(1L, s.L("m_att", 1)); Settings st(1, 0); st.Quiet(); st.AllDisturbancesOff(0); st.AllNoiseOff(0); auto& b = st.base; auto& S = st.sat[0]; Rng r((uint64_t)s.P("geo", 1));
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:%ld:%ld", r.Int(2018, 2026), r.Int(1, 12), r.Int(1, 28), r.Int(0, 23), r.Int(0, 59), r.Int(0, 59))).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", 0.0).Set("TIME", "attitude_update_period_s", dt * m_att).Set("TIME", "orbit_update_period_s", dt).Set("TIME", "thermal_update_period_s", dt).Set("TIME", "component_update_period_s", comp).Set("TIME", "log_output_period_s", dt * 1000).Set("TIME", "orbit_integral_step_s", dt).Set("TIME", "attitude_integral_step_s", std::min(dt, 0.1)).Set("TIME", "thermal_integral_step_s", dt);
  const char* CI = "CELESTIAL_INFORMATION"; b.Set(CI, "center_object", "EARTH").Set(CI, "number_of_selected_body", 3.0).Set(CI, "rotation_mode(0)", "IDLE").Set(CI, "rotation_mode(1)", "SIMPLE").Set(CI, "rotation_mode(2)", "IDLE").Set(CI, "selected_body_name(0)", "SUN").Set(CI, "selected_body_name(1)", "EARTH").Set(CI, "selected_body_name(2)", "MOON");
  {
    auto& l = st.local[0]; l.Enable("MAGNETIC_FIELD_ENVIRONMENT", "calculation", true).Enable("ATMOSPHERE", "calculation", false); const char* M = "MAGNETIC_FIELD_ENVIRONMENT"; l.Set(M, "magnetic_field_random_walk_standard_deviation_nT", 0.0).Set(M, "magnetic_field_random_walk_limit_nT", 0.0).Set(M, "magnetic_field_white_noise_standard_deviation_nT", 0.0);
    V3 u = RandDir(r), t = cross(u, RandDir(r)); double rad = 6.9e6; S.Set("ORBIT", "propagate_mode", "RK4").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Vec("ORBIT", "initial_position_i_m", rad * u).Vec("ORBIT", "initial_velocity_i_m_s", (std::sqrt(3.986e14 / rad) / Norm(t)) * t); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) S.Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", k), q[k]);
    S.Set("ATTITUDE", "propagate_mode", "RK4").Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", s.P("spin") * RandDir(r)).Vec("ATTITUDE", "initial_torque_b_Nm", V3(0.0));
  }
  double Ib[3] = {r.Uni(0.5, 5), 0, 0}; Ib[1] = Ib[0] * r.Uni(0.7, 1.3); Ib[2] = std::fabs(Ib[0] - Ib[1]) + (Ib[0] + Ib[1] - std::fabs(Ib[0] - Ib[1])) * r.Uni(0.1, 0.9); for (int i = 0; i < 9; i++) st.structure[0].Set("KINEMATIC_PARAMETERS", Fmt("inertia_tensor_kgm2(%d)", i), i % 4 == 0 ? Ib[i / 4] : 0.0);
  st.Write(); WriteGravityFiles();
  Case* cp = nullptr; std::vector<Act> X((size_t)std::min(12L, std::max(1L, s.L("n", 1)))); double last = 0; size_t next = 0; std::vector<std::function<void()>> final; std::vector<ReactionWheel*> wheels; std::vector<std::function<V3()>> stored; bool jitter = false;
  Case::Hooks hk;
  auto drawn = std::make_shared<std::vector<std::pair<int, std::array<double, 2>>>>();
  hk.build = [&](Craft& k, Parts& p) {
    s2e::dynamics::Dynamics* dy = &k.Dyn(); s2e::environment::LocalEnvironment* en = &k.Env(); s2e::spacecraft::Structure* su = &k.Struct(); auto* clk = &k.Clock();
    for (size_t i = 0; i < X.size(); i++) {
      auto& x = X[i]; auto P = [&, i](const char* n, double d = 0) { return s.P(Fmt("k%zu.%s", i, n), d); }; x.k = (int)i; x.type = (int)std::min(4L, std::max(0L, (long)P("type"))); Rng q((uint64_t)P("seed", 1)); long nz = (long)P("noise"); x.noise_w = nz & 1; x.noise_r = nz & 2; x.pre = (int)P("pre", 1); int pe = std::max(1, x.pre); x.tick = comp * pe; x.b2c = RandQuat(q);
      std::string file = Fmt("settings/sat0/components/k%zu.ini", i), sec; Ini f; int id = (int)i + 1; std::shared_ptr<void> obj; bool ported = P("port", 1) > 0 && x.type != kForceA && x.type != kTorqueA; if (ported) { x.port.reset(new PowerPort((int)i, 100.0)); f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 1.0); }
      x.force = [] { return V3(0.0); }; x.torque = x.force; auto who = [&X, i, &cp] { return X[i].Who(cp->Time().GetElapsedTime_s()); };
      if (x.type == kMtqA) {
        sec = Fmt("MAGNETORQUER_%d", id); f.Set(sec, "prescaler", (double)x.pre); for (int j = 0; j < 4; j++) f.Set(sec, Fmt("quaternion_b2c(%d)", j), x.b2c[j]); std::vector<double> M(9); bool ident = q.Chance(0.4) || P("walk") > 0; for (int j = 0; j < 9; j++) { M[j] = (j % 4 == 0 ? 1 : 0) + (ident ? 0 : 0.2 * q.Gauss()); f.Set(sec, Fmt("scale_factor_c(%d)", j), M[j]); }
        double mx = q.LogUni(1e-2, 100); V3 up, lo, bias(0.0), sw(0.0), sr(0.0), lim(0.0); for (int j = 0; j < 3; j++) { up[j] = mx * q.Uni(0.3, 1); lo[j] = q.Chance(0.7) ? -up[j] : -mx * q.Uni(0.1, 1); if (q.Chance(0.4)) bias[j] = 0.1 * mx * q.Gauss(); if (x.noise_w) sw[j] = mx * q.LogUni(1e-4, 0.1); if (x.noise_r) { sr[j] = mx * q.LogUni(1e-4, 0.1); lim[j] = mx * q.LogUni(1e-3, 0.3); if (P("walk") > 0) lim[j] = 40 * sr[j] * x.tick; } }
        f.Vec(sec, "max_output_magnetic_moment_c_Am2", up).Vec(sec, "min_output_magnetic_moment_c_Am2", lo).Vec(sec, "constant_bias_noise_c_Am2", bias).Vec(sec, "random_walk_standard_deviation_c_Am2", sr).Vec(sec, "random_walk_limit_c_Am2", lim).Vec(sec, "white_noise_standard_deviation_c_Am2", sw); WriteFile(file, f.Text());
        auto o = std::make_shared<Magnetorquer>(ported ? InitMagnetorquer(clk, x.port.get(), id, file, comp, &en->GetGeomagneticField()) : InitMagnetorquer(clk, id, file, comp, &en->GetGeomagneticField())); obj = o; auto* O = o.get(); x.torque = [O] { return O->GetOutputTorque_b_Nm(); };
        auto cmd = std::make_shared<V3>(0.0); x.command = [O, cmd, mx](const Event& e) { *cmd = mx * Vec(e.A(1), e.A(2), e.A(3)); O->SetOutputMagneticMoment_c_Am2(*cmd); }; double ts = x.tick; auto sum = std::make_shared<std::vector<V3>>();
        x.judge = [&, i, O, cmd, M, up, lo, bias, sw, sr, lim, ts, en, who, mx, sum](bool on) {
          auto& x = X[i]; V3 m = O->GetOutputMagneticMoment_c_Am2(), mb = O->SetOutputMagneticMoment_b_Am2(), t = O->GetOutputTorque_b_Nm(); if (!on) { c.Check(Norm(m) == 0 && Norm(mb) == 0 && Norm(t) == 0, "power-off", "%s has no power but a moment of %.6g Am2 and a torque of %.6g Nm", who().c_str(), Norm(mb), Norm(t)); x.cycled = x.held = true; return; }
          V3 B = 1e-9 * en->GetGeomagneticField().GetGeomagneticField_b_nT(); NearV(c, mb, RotB2I(x.b2c, m), 1e-9 * mx, "moment-frame", "body frame moment of " + who()); NearV(c, t, cross(mb, B), 1e-9 * mx * Norm(B), "moment-torque", "torque of " + who()); c.Probe("magnetorquer outputs");
          auto fits = [&](const V3& u) { bool ok = true; for (int j = 0; j < 3; j++) { double e = 0, w = 1e-9 * mx; for (int l = 0; l < 3; l++) { double v = std::min(std::max(u[l], lo[l]), up[l]) + bias[l]; e += M[3 * j + l] * v; w += std::fabs(M[3 * j + l]) * (8 * sw[l] + (x.ticks ? std::min(8 * sr[l] * ts * x.ticks, lim[l] + 8 * sr[l] * ts) : 0)); } if (std::fabs(m[j] - e) > w) ok = false; } return ok; };
          bool clip = false; for (int j = 0; j < 3; j++) if ((*cmd)[j] > up[j] || (*cmd)[j] < lo[j]) clip = true; if (clip) c.Count("commands beyond the limit"); bool ok = fits(*cmd); if (!ok && x.cycled && x.held && fits(V3(0.0))) ok = true;
          c.Check(ok, "moment", "%s held at (%.6g, %.6g, %.6g) Am2 produces (%.9g, %.9g, %.9g) Am2, beyond its errors", who().c_str(), (*cmd)[0], (*cmd)[1], (*cmd)[2], m[0], m[1], m[2]); if (x.noise_r != x.noise_w && !x.cycled) { V3 d = m; for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) d[j] -= M[3 * j + l] * (std::min(std::max((*cmd)[l], lo[l]), up[l]) + bias[l]); sum->push_back(d); }
        };
        final.push_back([&, i, sum, M, sw, sr, lim, ident, ts] { size_t N = sum->size();
          if (X[i].noise_r) {  // a walk with a wide limit wanders
            if (N < 400 || !ident) return; for (int j = 0; j < 3; j++) { double g = 0; for (auto& d : *sum) g = std::max(g, std::fabs(d[j])); if (lim[j] < 12 * sr[j] * ts) continue; c.Probe("wandering moments"); c.Check(g > 2.5 * sr[j] * ts, "walk-size", "random walk of axis %d of magnetorquer %zu stays within %.6g Am2 over %zu samples, steps of %.6g, limit %.6g", j, i, g, N, sr[j] * ts, lim[j]); } return; }
          if (N < 100) return; c.Probe("noise statistics"); for (int j = 0; j < 3; j++) { double v = 0, w = 0; for (auto& d : *sum) v += d[j] * d[j] / N; for (int l = 0; l < 3; l++) w += std::pow(M[3 * j + l] * sw[l], 2); c.Check(v > 0.36 * w && v < 2.25 * w, "noise-size", "noise of axis %d of magnetorquer %zu over %zu samples has deviation %.6g, configured %.6g", j, i, N, std::sqrt(v), std::sqrt(w)); } });
        if (q.Chance(0.5)) {  // a magnetometer disturbed by this magnetorquer
          std::string mf = Fmt("settings/sat0/components/m%zu.ini", i); Ini g; std::string ms = Fmt("MAGNETOMETER_%d", id), mb = "SENSOR_BASE_" + ms; g.Set(ms, "prescaler", 1.0); Quat mq = RandQuat(q); for (int j = 0; j < 4; j++) g.Set(ms, Fmt("quaternion_b2c(%d)", j), mq[j]); for (int j = 0; j < 9; j++) g.Set(mb, Fmt("scale_factor_c(%d)", j), j % 4 == 0 ? 1.0 : 0.0); V3 mbias = 100.0 * RandDir(q); g.Vec(mb, "constant_bias_c_nT", mbias).Vec(mb, "normal_random_standard_deviation_c_nT", V3(0.0)).Vec(mb, "random_walk_standard_deviation_c_nT", V3(0.0)).Vec(mb, "random_walk_limit_c_nT", V3(0.0)).Set(mb, "range_to_constant_nT", 1e9).Set(mb, "range_to_zero_nT", 2e9);
          long deg = q.Int(0, 3); std::string is = "MTQ_MAGNETOMETER_INTERFERENCE_0"; g.Set(is, "polynomial_degree", (double)deg); std::vector<std::vector<double>> C; for (long d = 1; d <= deg; d++) { std::vector<double> v(9); for (int j = 0; j < 3; j++) for (int l = 0; l <= j; l++) v[3 * j + l] = v[3 * l + j] = 1e4 * q.Gauss() / std::pow(mx, d); C.push_back(v); g.Vec(is, Fmt("additional_bias_by_mtq_coefficients_%ld", d), v); } WriteFile(mf, g.Text());
          auto mag = std::make_shared<Magnetometer>(InitMagnetometer(clk, id, mf, comp, &en->GetGeomagneticField())); auto inter = std::make_shared<MtqMagnetometerInterference>(mf, *mag, *o); p.owned.push_back(mag); p.owned.push_back(inter); auto* mp = mag.get(); auto seen = std::make_shared<V3>(0.0), fresh = std::make_shared<V3>(0.0); c.Count("disturbed magnetometers");
          p.interference = [prev = p.interference, in = inter.get(), O, fresh] { if (prev) prev(); in->UpdateInterference(); *fresh = O->GetOutputMagneticMoment_c_Am2(); };  // the bias of this step follows the moment of this step
          p.owned.push_back(std::make_shared<Recorder>(1, clk, [&, mp, en, mq, mbias, C, fresh, i, mx] { V3 w = RotI2B(mq, en->GetGeomagneticField().GetGeomagneticField_b_nT()) + mbias; double big = 1; for (size_t d = 0; d < C.size(); d++) for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) { double a = C[d][3 * j + l] * std::pow((*fresh)[l], (double)d + 1); w[j] += a; big += std::fabs(a); } NearV(c, mp->GetMeasuredMagneticField_c_nT(), w, 1e-8 * (big + 1e5), "interference", Fmt("magnetometer disturbed by magnetorquer %zu at %.9g s", i, cp->Time().GetElapsedTime_s())); c.Probe("disturbed magnetometer readings"); }));
        }
      } else if (x.type == kThrA) {
        sec = Fmt("THRUSTER_%d", id); f.Set(sec, "prescaler", (double)x.pre); V3 pos = Vec(q.Gauss(), q.Gauss(), q.Gauss()), dir = RandDir(q); if (q.Chance(0.5)) { dir = V3(0.0); dir[(size_t)q.Int(0, 2)] = q.Sign(); } double len = q.LogUni(0.1, 10), mx = q.LogUni(1e-3, 100), sm = x.noise_w ? mx * q.LogUni(1e-4, 0.05) : 0, sd = x.noise_r ? q.LogUni(0.01, 10) : 0, ts = x.tick, dead = q.Chance(0.4) ? 0 : (q.Int(0, 8) + q.Uni(0.2, 0.8)) * ts, tau = q.Chance(0.5) ? 0 : ts * q.LogUni(0.1, 20);
        f.Vec(sec, "thruster_position_b_m", pos).Vec(sec, "thruster_direction_b", len * dir).Set(sec, "thrust_magnitude_N", mx).Set(sec, "thrust_error_standard_deviation_N", sm).Set(sec, "direction_error_standard_deviation_deg", sd).Set(sec, "dead_time_s", dead).Set(sec, "time_constant_s", tau).Set(sec, "step_width_s", ts); WriteFile(file, f.Text());
        auto o = std::make_shared<SimpleThruster>(ported ? InitSimpleThruster(clk, x.port.get(), id, file, su, dy) : InitSimpleThruster(clk, id, file, su, dy)); obj = o; auto* O = o.get(); x.force = [O] { return O->GetOutputThrust_b_N(); }; x.torque = [O] { return O->GetOutputTorque_b_Nm(); }; auto cmd = std::make_shared<double>(0); x.command = [O, cmd](const Event& e) { *cmd = std::min(1.0, std::fabs(e.A(1))); O->SetDuty(*cmd); };
        auto dl = std::make_shared<Delay>(); dl->Init(dead, tau, ts); auto az = std::make_shared<std::vector<V3>>();
        x.judge = [&, i, O, cmd, pos, dir, mx, sm, sd, dl, who, su, az](bool on) {
          V3 F = O->GetOutputThrust_b_N(), T = O->GetOutputTorque_b_Nm(); if (!on) { c.Check(Norm(F) == 0 && Norm(T) == 0, "power-off", "%s has no power but a thrust of %.6g N and a torque of %.6g Nm", who().c_str(), Norm(F), Norm(T)); dl->Pause(); return; }
          V3 arm = pos - su->GetKinematicsParameters().GetCenterOfGravity_b_m(); NearV(c, T, cross(arm, F), 1e-12 + 1e-9 * Norm(arm) * mx, "thrust-torque", "torque of " + who()); Range y = dl->Push(*cmd); double g = dot(F, dir), n = Norm(F); c.Probe("thruster outputs"); if (sd > 0 && g < 0 && n > 0) n = -n;
          if (y.hi == 0) { c.Check(Norm(F) == 0, "thrust-silent", "%s thrusts with %.6g N although no command has reached it", who().c_str(), Norm(F)); c.Count("thruster silent"); return; }
          double lo = y.lo * mx - 8 * sm - 1e-9 * mx, hi = y.hi * mx + 8 * sm + 1e-9 * mx; c.Check(n >= lo && n <= hi, "thrust", "%s thrusts with %.9g N, its commands allow %.9g to %.9g N", who().c_str(), n, lo, hi);
          if (y.lo * mx > 1e-9 * mx && y.lo * mx > 8 * sm) { V3 e = cross(dir, (1 / Norm(F)) * F); double a = std::atan2(Norm(e), dot(dir, F) / Norm(F)); c.Check(a <= 8 * sd * kDeg + 1e-6, "thrust-direction", "%s thrusts %.6g deg away from its axis, configured deviation %.6g deg", who().c_str(), a / kDeg, sd); az->push_back((a / std::max(Norm(e), 1e-300)) * e); }
        };
        final.push_back([&, i, az, sd, dir] { size_t N = az->size(); if (N < 100 || sd == 0) return; c.Probe("noise statistics"); V3 u = cross(dir, std::fabs(dir[0]) < 0.6 ? Vec(1, 0, 0) : Vec(0, 1, 0)); u = (1 / Norm(u)) * u; V3 v = cross(dir, u); double a = 0, d = 0; for (auto& e : *az) { a += std::pow(dot(e, u), 2) / N; d += std::pow(dot(e, v), 2) / N; } double w = std::sqrt(a + d) / kDeg; c.Check(w > 0.6 * sd && w < 1.5 * sd, "noise-size", "direction error of thruster %zu over %zu samples has deviation %.6g, configured %.6g deg", i, N, w, sd); c.Check(std::min(a, d) > 0.1 * (a + d), "direction-isotropic", "direction error of thruster %zu lies in one plane (%.6g, %.6g rad2)", i, a, d); });
      } else if (x.type == kForceA || x.type == kTorqueA) {
        bool fo = x.type == kForceA; sec = fo ? "FORCE_GENERATOR" : "TORQUE_GENERATOR"; double mx = q.LogUni(1e-6, 100), sm = x.noise_w ? mx * q.LogUni(1e-4, 0.03) : 0, sd = x.noise_r ? q.LogUni(0.01, 10) : 0; f.Set("COMPONENT_BASE", "prescaler", (double)x.pre).Set(sec, fo ? "force_magnitude_standard_deviation_N" : "torque_magnitude_standard_deviation_Nm", sm).Set(sec, fo ? "force_direction_standard_deviation_deg" : "torque_direction_standard_deviation_deg", sd); WriteFile(file, f.Text());
        auto want = std::make_shared<V3>(0.0); auto az = std::make_shared<std::pair<std::vector<double>, std::vector<V3>>>(); std::function<V3()> out;
        auto rtn = [dy](const V3& v) { V3 p = dy->GetOrbit().GetPosition_i_m(), w = dy->GetOrbit().GetVelocity_i_m_s(), R = (1 / Norm(p)) * p, n = cross(p, w), N = (1 / Norm(n)) * n, T = cross(N, R); V3 o = v[0] * R; o += v[1] * T; o += v[2] * N; return o; };
        if (fo) { auto o = std::make_shared<ForceGenerator>(InitializeForceGenerator(clk, file, dy)); obj = o; auto* O = o.get(); out = x.force = [O] { return O->GetGeneratedForce_b_N(); };
          x.command = [O, want, mx, dy, rtn](const Event& e) { V3 v = mx * Vec(e.A(1), e.A(2), e.A(3)); Quat q = dy->GetAttitude().GetQuaternion_i2b(); if (e.I(4) == 0) { *want = v; O->SetForce_b_N(v); } else if (e.I(4) == 1) { *want = RotI2B(q, v); O->SetForce_i_N(v); } else { *want = RotI2B(q, rtn(v)); O->SetForce_rtn_N(v); } };
        } else { auto o = std::make_shared<TorqueGenerator>(InitializeTorqueGenerator(clk, file, dy)); obj = o; auto* O = o.get(); out = x.torque = [O] { return O->GetGeneratedTorque_b_Nm(); }; x.command = [O, want, mx](const Event& e) { *want = mx * Vec(e.A(1), e.A(2), e.A(3)); O->SetTorque_b_Nm(*want); }; }
        x.judge = [&, i, want, sm, sd, mx, out, dy, rtn, fo, who, az, O = obj.get()](bool) {
          V3 F = out(); double w = Norm(*want), n = Norm(F); c.Probe(fo ? "force generator outputs" : "torque generator outputs"); if (w == 0) { c.Check(n == 0, "generator-silent", "%s generates %.6g without an order", who().c_str(), n); return; }
          c.Check(std::fabs(n - w) <= 8 * sm + 1e-9 * w || n <= 8 * sm - w, "generator-size", "%s generates %.12g instead of %.12g, deviation %.6g", who().c_str(), n, w, sm);
          if (w > 8 * sm) { V3 e = cross((1 / w) * *want, (1 / n) * F); double a = std::atan2(Norm(e), dot(F, *want) / n / w); c.Check(a <= 8 * sd * kDeg + 1e-7, "generator-direction", "%s is %.6g deg away from the ordered direction, configured deviation %.6g deg", who().c_str(), a / kDeg, sd); az->first.push_back(a); az->second.push_back(F - *want); }
          if (fo) { auto* G = static_cast<ForceGenerator*>(O); V3 fi = RotB2I(dy->GetAttitude().GetQuaternion_i2b(), F); NearV(c, G->GetGeneratedForce_i_N(), fi, 1e-9 * mx, "force-inertial", "inertial force of " + who()); NearV(c, rtn(G->GetGeneratedForce_rtn_N()), fi, 1e-9 * mx, "force-rtn", "radial, transverse and normal force of " + who()); }
        };
        final.push_back([&, i, az, sd, drawn] { size_t N = az->first.size(); if (N > 1 && sd > 0) { double a = az->first[0] / sd, b = az->first[1] / sd; for (auto& e : *drawn) if (e.first == X[i].type) { c.Probe("generators compared"); c.Check(std::fabs(e.second[0] - a) > 1e-7 * a || std::fabs(e.second[1] - b) > 1e-7 * b, "independent", "two components (%s) have the same direction errors", kName[X[i].type]); } drawn->push_back({X[i].type, {a, b}}); } if (N < 100 || sd == 0) return; double v = 0; for (double a : az->first) v += a * a / N; v = std::sqrt(v) / kDeg; c.Probe("noise statistics"); c.Check(v > 0.6 * sd && v < 1.5 * sd, "noise-size", "direction error of %s %zu over %zu samples has deviation %.6g, configured %.6g deg", kName[X[i].type], i, N, v, sd); });
      } else {
        sec = Fmt("REACTION_WHEEL_%d", id); double ts = x.tick, I = q.LogUni(1e-5, 1e-2), mx = I * q.LogUni(0.1, 100), wmax = q.LogUni(50, 1000), dead = q.Chance(0.4) ? 0 : (q.Int(0, 8) + q.Uni(0.2, 0.8)) * ts, tau = q.Chance(0.4) ? 0 : ts * q.LogUni(0.1, 20), stop = q.Chance(0.2) ? 0 : q.LogUni(1e-3, 10), w0 = std::min(std::max(P("w0"), -wmax), wmax); long order = q.Int(0, 3), jit = (long)P("jitter"); bool direct = q.Chance(0.5); V3 axis = RotB2I(x.b2c, Vec(0, 0, 1)); if (direct) { axis = RandDir(q); if (q.Chance(0.5)) { axis = V3(0.0); axis[(size_t)q.Int(0, 2)] = q.Sign(); } } V3 pos = RandDir(q);
        f.Set(sec, "prescaler", (double)x.pre).Set(sec, "moment_of_inertia_kgm2", I).Set(sec, "max_output_torque_Nm", mx).Set(sec, "max_angular_velocity_rpm", wmax * 30 / M_PI).Set(sec, "direction_determination_mode", direct ? "DIRECTION" : "QUATERNION"); for (int j = 0; j < 4; j++) f.Set(sec, Fmt("quaternion_b2c(%d)", j), x.b2c[j]);
        std::vector<double> fr(3); for (auto& d : fr) d = q.Chance(0.3) ? 0 : q.LogUni(1e-3, 0.5); fr.resize(order); f.Vec(sec, "direction_b", q.LogUni(0.5, 2) * axis).Vec(sec, "position_b_m", pos).Set(sec, "dead_time_s", dead).Set(sec, "time_constant_s", tau).Set(sec, "friction_order", (double)order).Vec(sec, "friction_coefficients", fr).Set(sec, "stop_limit_angular_velocity_rad_s", stop).Set(sec, "initial_motor_drive_flag", P("drive") > 0 ? 1.0 : 0.0).Set(sec, "initial_angular_velocity_rad_s", w0);
        std::string js = Fmt("REACTION_WHEEL_JITTER_%d", id); long nh = q.Chance(0.35) ? 1 : q.Int(2, 4), only = nh == 1 || q.Chance(0.5) ? q.Int(0, nh - 1) : -1; double hf = 0, ht = 0; std::string fc = Fmt("settings/sat0/components/j%zuf.csv", i), tc = Fmt("settings/sat0/components/j%zut.csv", i), ft, tt; double fa = 0, ta = 0; for (long h = 0; h < nh; h++) { double a = q.LogUni(1e-9, 1e-6), d = q.LogUni(1e-9, 1e-6); if (only >= 0 && h != only) a = d = 0; fa += a; ta += d; double hf1 = std::floor(q.Uni(500, 15000)) / 1000, ht1 = std::floor(q.Uni(500, 15000)) / 1000; if (only < 0 || h == only) hf = hf1, ht = ht1; ft += Fmt("%.6g,%.17g\n", hf1, a); tt += Fmt("%.6g,%.17g\n", ht1, d); } const long fast = q.Int(1, 3); const double Tj = fast * comp, fres = q.Uni(0.02, 0.35) / Tj, zj = q.LogUni(0.02, 0.8), bj = q.LogUni(0.2, 4); WriteFile(fc, ft); WriteFile(tc, tt);
        f.Enable(js, "jitter_calculation", jit > 0).Enable(js, "jitter_logging", jit > 0).Set(js, "fast_prescaler", (double)fast).Set(js, "radial_force_harmonics_coefficient_file", fc).Set(js, "radial_torque_harmonics_coefficient_file", tc).Set(js, "harmonics_degree", (double)nh).Enable(js, "considers_structural_resonance", jit > 1).Set(js, "structural_resonance_frequency_Hz", fres).Set(js, "damping_factor", zj).Set(js, "bandwidth", bj); WriteFile(file, f.Text()); if (jit) { jitter = true; c.Count("wheels with jitter"); }
        auto o = std::make_shared<ReactionWheel>(ported ? InitReactionWheel(clk, x.port.get(), id, file, comp) : InitReactionWheel(clk, id, file, comp)); obj = o; auto* O = o.get(); x.torque = [O] { return O->GetOutputTorque_b_Nm(); }; wheels.push_back(O); stored.push_back([O] { return O->GetAngularMomentum_b_Nms(); });
        struct Mem { double u = 0, w = 0, limit = 0; std::vector<double> past; bool drive = false, was_off = false; Delay d; }; auto m = std::make_shared<Mem>(); m->w = w0; m->past.push_back(std::fabs(w0)); m->limit = wmax; m->d.Init(dead, tau, ts); NearV(c, O->GetAngularMomentum_b_Nms(), (I * w0) * axis, 1e-6 * I * wmax, "initial-momentum", Fmt("initial angular momentum of wheel %zu", i)); c.Near(O->GetAngularVelocity_rad_s(), w0, 1e-9 * wmax, "initial-speed", Fmt("initial speed of wheel %zu", i));
        if (jit && only >= 0) {
          // One harmonic: after the first output its phase is known, the following ones are determined by the speeds of the wheel and, if considered, by the resonance
          // (s^2 + 2 z w s + w^2) / (s^2 + 2 b z w s + w^2), integrated by the trapezoidal rule with the frequency kept.
          struct Line { double h = 0, A = 0, d = 0, phi = 0, peak = 0; bool known = false, blind = false; double u[2][2] = {}, y[2][2] = {}; };
          auto ln = std::make_shared<std::pair<Line, Line>>(); ln->first.h = hf; ln->first.A = fa; ln->second.h = ht; ln->second.A = ta; auto n = std::make_shared<long>(0); bool res = jit > 1; bool quat = !direct; Quat b2c = x.b2c; double Wa = 2 / Tj * std::tan(M_PI * fres * Tj);
          x.each = [&, i, O, ln, n, res, fast, Tj, zj, bj, Wa, pe, quat, b2c, axis, pos, who] {
            bool on = !X[i].port || X[i].port->GetIsOn(), due = *n % fast == 0, main = *n % pe == 0; ++*n; std::vector<double> L; std::istringstream l(static_cast<const s2e::logger::ILoggable*>(O)->GetLogValue()); std::string e; while (std::getline(l, e, ',')) L.push_back(std::strtod(e.c_str(), nullptr)); if (L.size() < 11) return;
            double w = O->GetAngularVelocity_rad_s(); V3 out[2] = {Vec(L[5], L[6], L[7]), Vec(L[8], L[9], L[10])}; if (!on) { if (due || main) { c.Probe("jitter without power"); c.Check(Norm(out[0]) == 0 && Norm(out[1]) == 0, "jitter-off", "%s has jitter without power", who().c_str()); for (auto* k : {&ln->first, &ln->second}) { k->blind = false; for (auto* p : {k->u, k->y}) p[0][0] = p[0][1] = p[1][0] = p[1][1] = 0; } } return; }
            for (int q2 = 0; q2 < 2; q2++) {
              Line& k = q2 ? ln->second : ln->first; double c0 = 1, c3 = 1, c1 = 0, c2 = 0, c4 = 0, c5 = 0; if (res) { double a = 4 / (Tj * Tj), W2 = Wa * Wa, p = 4 * bj * zj * Wa / Tj, z = 4 * zj * Wa / Tj; c0 = a + p + W2; c2 = a - p + W2; c1 = c4 = 2 * (W2 - a); c3 = a + z + W2; c5 = a - z + W2; }
              if (due) {
                k.d += k.h * w * Tj; double r = k.A * w * w; if (!k.known && !k.blind && r > 0 && std::hypot(out[q2][0], out[q2][1]) > 0) { k.phi = std::atan2(out[q2][0], out[q2][1]) - k.d; k.known = true; } else if (!k.known && r > 0) k.blind = true;
                double nu[2] = {r * std::sin(k.phi + k.d), r * std::cos(k.phi + k.d)}, ny[2]; if (!k.known) nu[0] = nu[1] = 0; for (int j = 0; j < 2; j++) { ny[j] = (c3 * nu[j] + c4 * k.u[0][j] + c5 * k.u[1][j] - c1 * k.y[0][j] - c2 * k.y[1][j]) / c0; k.u[1][j] = k.u[0][j]; k.u[0][j] = nu[j]; k.y[1][j] = k.y[0][j]; k.y[0][j] = ny[j]; } k.peak = std::max(k.peak, std::hypot(ny[0], ny[1]) + r);
              }
              if (!k.known || k.blind) continue;
              c.Probe(res ? "jitter with structural resonance" : "jitter of one harmonic"); NearV(c, out[q2], Vec(k.y[0][0], k.y[0][1], 0), 1e-4 * k.peak + 1e-15, "jitter", std::string(q2 ? "jitter torque" : "jitter force") + (res ? " with structural resonance of " : " of ") + who());
            }
            V3 Fb = O->GetJitterForce_b_N(); double sc = 1e-5 * Norm(out[0]) + 1e-15; c.Near(Norm(Fb), Norm(out[0]), sc, "jitter-frame", "size of the jitter force in the body frame of " + who()); c.Near(dot(Fb, axis), 0, sc, "jitter-frame", "jitter force along the axis of " + who());
            if (quat) NearV(c, Fb, RotB2I(b2c, out[0]), 3 * sc, "jitter-frame", "jitter force in the body frame of " + who());
          };
        }
        x.command = [O, m, mx, wmax, jit, &c](const Event& e) {
          if (e.kind == "power") { if (jit) m->d.Pause(); return; } if (e.kind == "limit") { O->SetVelocityLimit_rpm(e.A(1)); m->limit = std::min(wmax, e.A(1) * M_PI / 30); c.Count("speed limit changed"); return; } if (e.kind == "drive") { O->SetDriveFlag(e.A(1) > 0); return; }
          double u = mx * e.A(1) * 1.3; if (e.I(4) == 0) { O->SetTargetTorque_b_Nm(-u); } else O->SetTargetTorque_rw_Nm(u); if (std::fabs(u) > mx) c.Count("torque beyond the limit"); m->u = std::min(std::max(u, -mx), mx);
        };
        x.judge = [&, i, O, m, I, mx, wmax, stop, fr, axis, pos, jit, ts, fa, ta, who](bool on) {
          const double still = 1e-9 * wmax; double w = O->GetAngularVelocity_rad_s(), a = (w - m->w) / ts, tol = 1e-9 * (wmax / ts + mx / I); V3 T = O->GetOutputTorque_b_Nm(), base = (-I * a) * axis; c.Probe("wheel outputs"); c.Near(O->GetAngularVelocity_rpm(), w * 30 / M_PI, 1e-6 * wmax, "speed-unit", "speed in rpm of " + who());
          m->past.push_back(std::fabs(w)); if (m->past.size() > 8) m->past.erase(m->past.begin()); if (!(jit && !on)) NearV(c, O->GetAngularMomentum_b_Nms(), (I * w) * axis, 1e-6 * I * wmax, "momentum", "angular momentum of " + who());
          if (jit && on) {
            std::vector<double> L; std::istringstream l(static_cast<const s2e::logger::ILoggable*>(O)->GetLogValue()); std::string e; while (std::getline(l, e, ',')) L.push_back(std::strtod(e.c_str(), nullptr)); c.Check(L.size() >= 11, "jitter-log", "%s logs %zu values", who().c_str(), L.size());
            if (L.size() >= 11) { V3 jf = Vec(L[5], L[6], L[7]), jt = Vec(L[8], L[9], L[10]); c.Check(Finite(jf) && Finite(jt) && Finite(T), "jitter-finite", "jitter of %s is not finite", who().c_str()); double wm = 0; for (double v : m->past) wm = std::max(wm, v); if (jit == 1) { c.Check(Norm(jf) <= fa * wm * wm * 1.0001 + 1e-15 && Norm(jt) <= ta * wm * wm * 1.0001 + 1e-15, "jitter-size", "jitter of %s is %.6g N and %.6g Nm, harmonics allow %.6g and %.6g", who().c_str(), Norm(jf), Norm(jt), fa * wm * wm, ta * wm * wm); c.Check(jf[2] == 0 && jt[2] == 0, "jitter-axis", "jitter of %s along its axis", who().c_str()); double ex = Norm(T - base), al = ex > 0 ? Norm(pos) * Norm(jf) + Norm(jt) : 0; c.Check(ex <= al * 1.001 + 1e-9 * mx + 1e-15 + I * tol, "jitter-torque", "torque of %s is %.6g Nm away from its reaction, its jitter allows %.6g Nm", who().c_str(), ex, al); } }
          } else { NearV(c, T, base, I * tol + 1e-12 * I, on ? "reaction" : "power-off", (on ? "torque of " : "torque without power of ") + who()); }
          if (!on) { c.Check(std::fabs(w) <= std::fabs(m->w) + 1e-12 && w * m->w >= 0, "off-speed", "%s without power changed its speed from %.9g to %.9g rad/s", who().c_str(), m->w, w); m->d.Clear(); m->was_off = true; m->w = w; return; }
          bool drive = O->GetDriveFlag();
          if (!drive) {
            c.Count("wheel coasting"); double x1 = std::fabs(m->w), f1 = 0, f2 = 0; for (size_t k = 0; k < fr.size(); k++) { f1 += fr[k] * std::pow(x1, (double)k); f2 += fr[k] * std::pow(x1, k + 1.0); } double dec = x1 - std::fabs(w); bool same = w * m->w >= 0 || std::fabs(w) <= still;
            c.Check(dec >= -1e-12 * wmax && same, "coasting", "%s is not driven and changed its speed from %.12g to %.12g rad/s", who().c_str(), m->w, w);
            if (x1 < stop * (1 - 1e-9)) c.Check(std::fabs(w) <= still, "stop", "%s turns with %.9g rad/s, below its stop limit of %.9g, and goes on with %.9g", who().c_str(), m->w, stop, w), c.Count("wheel stopped at its limit");
            if (x1 >= stop * (1 + 1e-9) + 1e-12 && std::fabs(w) <= still) c.Check(dec <= std::max(f1, f2) * ts + 1e-9 * wmax, "friction", "%s stopped from %.9g rad/s in %.6g s, its friction allows a change of %.9g, its stop limit is %.9g", who().c_str(), m->w, ts, std::max(f1, f2) * ts, stop);
            if (x1 >= stop + 1e-12 && std::fabs(w) > still) c.Check(dec <= std::max(f1, f2) * ts + 1e-9 * wmax && dec >= std::min(f1, f2) * ts - 1e-9 * wmax, "friction", "%s slowed down by %.9g rad/s in %.6g s, its friction allows %.9g to %.9g", who().c_str(), dec, ts, std::min(f1, f2) * ts, std::max(f1, f2) * ts); m->d.Clear();
          } else {
            Range y = m->d.Push(m->u / I); c.Check(std::fabs(I * a) <= mx * (1 + 1e-6) + I * tol, "torque-limit", "%s produces %.9g Nm of at most %.9g", who().c_str(), I * a, mx); double lo = y.lo - tol, hi = y.hi + tol, reach = std::max(std::fabs(m->w + y.lo * ts), std::fabs(m->w + y.hi * ts)); bool near = std::max(std::fabs(m->w), reach) >= m->limit * (1 - 1e-9); if (near) { lo = std::min(lo, -tol); hi = std::max(hi, tol); c.Count("wheel at its speed limit"); }
            c.Check(a >= lo && a <= hi, "wheel-command", "%s accelerates with %.9g rad/s2, its commands allow %.9g to %.9g", who().c_str(), a, lo, hi); if (std::fabs(m->w) > m->limit * (1 + 1e-9)) c.Check(std::fabs(w) <= std::max(std::fabs(m->w), m->limit + mx / I * ts) + 1e-9 * wmax, "speed-limit", "%s speeds up from %.9g to %.9g rad/s beyond its limit of %.9g", who().c_str(), m->w, w, m->limit); else c.Check(std::fabs(w) <= m->limit + mx / I * ts + 1e-9 * wmax, "speed-limit", "speed of %s is %.9g of %.9g rad/s", who().c_str(), w, m->limit); c.Probe("driven wheel outputs");
          }
          m->w = w; c.State(Fmt("wheel drive%d off%d w%d delay%zu lim%d", drive, m->was_off, (w > 0) - (w < 0), m->d.q.size(), (int)(std::fabs(w) > m->limit)));
        };
      }
      auto fn = [&, i] { auto& x = X[i]; bool on = !x.port || x.port->GetIsOn(); c.nontrivial = true; x.judge(on); if (on) x.ticks++; else c.Count("ticks without power"); x.fresh = true; x.last_f = x.force(); x.last_t = x.torque(); for (int j = 0; j < 3; j++) { c.Hist(x.last_f[j]); c.Hist(x.last_t[j]); } if (x.type != kWheelA) c.State(Fmt("%s noise%d%d on%d start%d", kName[x.type], x.noise_w, x.noise_r, on, (int)(x.ticks < 3))); };
      if (x.port) x.port->SetVoltage_V(5.0);
      p.owned.push_back(obj); p.owned.push_back(std::make_shared<Recorder>(pe, clk, fn)); if (x.each) p.owned.push_back(std::make_shared<Recorder>(1, clk, x.each)); x.last_f = x.force(); x.last_t = x.torque(); c.Count(kName[x.type]);
    }
    // strong torques on a small body would only be a test of the integration step
    p.force = [&] { V3 f(0.0); for (auto& x : X) f += x.force(); return f; }; p.torque = [&] { V3 t(0.0); if (!wheels.empty()) for (auto& x : X) t += x.torque(); return t; };
    p.interference = [&, prev = p.interference, dy] {
      if (prev) prev(); if (!wheels.empty()) { V3 h(0.0); for (auto* w : wheels) h += w->GetAngularMomentum_b_Nms(); dy->SetAttitude().SetRwAngularMomentum_b_Nms(h); }
      for (auto& x : X) { bool jit = x.type == kWheelA && jitter; if (!x.fresh && !jit) { c.Probe("held outputs"); c.Check(Norm(x.force() - x.last_f) == 0 && Norm(x.torque() - x.last_t) == 0, "hold", "the output of %s changed between two of its ticks", x.Who(cp->Time().GetElapsedTime_s()).c_str()); } x.fresh = false; }
    };
  };
  V3 H0(0.0); double slack = 0, hold = 0; std::vector<V3> hs; bool moved = false; std::vector<double> jump;
  auto total = [&](Craft& k) { auto& a = k.Dyn().GetAttitude(); V3 w = a.GetAngularVelocity_b_rad_s(), h(0.0); for (int j = 0; j < 3; j++) h[j] = Ib[j] * w[j]; for (auto& f : stored) h += f(); return RotB2I(a.GetQuaternion_i2b(), h); };
  hk.ready = [&](Case& cs) { cp = &cs; if (!wheels.empty()) { H0 = total(*cs.craft[0]); for (auto& f : stored) hs.push_back(f()); jump.assign(hs.size(), 0); } };
  hk.before = [&](Case& cs, long step) {
    auto& k = *cs.craft[0];
    for (; next < s.ev.size() && s.ev[next].t <= step; next++) {
      auto& e = s.ev[next]; auto& x = X[(size_t)std::abs(e.I(0)) % X.size()];
      if (e.kind == "power") { if (x.port) { x.port->SetVoltage_V(e.A(1)); if (e.A(1) < 3.3) { x.held = true; if (x.type == kWheelA) x.command(e); } c.Count(e.A(1) >= 3.3 ? "power on" : "power off"); } }
      else if (e.kind == "jump") { Rng q((uint64_t)e.I(0)); k.Dyn().SetAttitude().SetQuaternion_i2b(RandQuat(q)); c.Count("attitude jump"); moved = true; }
      else if (e.kind == "balance") { k.Struct().GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(Vec(e.A(0), e.A(1), e.A(2))); c.Count("centre of mass moved"); }
      else if (x.command && (e.kind == "cmd" || x.type == kWheelA)) { x.command(e); x.held = false; x.cycled = x.cycled && x.type != kMtqA; c.Count("commands"); }
    }
  };
  hk.after = [&](Case& cs, long) {
    last = cs.Time().GetElapsedTime_s(); if (wheels.empty() || m_att != 1 || jitter || moved || wheels.size() != X.size()) return;
    auto& k = *cs.craft[0]; double w = Norm(k.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()); hold = 0;
    for (size_t j = 0; j < hs.size(); j++) { V3 h = stored[j](); double d = Norm(h - hs[j]), T = X[j].tick; if (d > 0) { jump[j] = d; } slack += d * std::min(2.0, 2 * T * (w + 2 * d / Ib[2] + 2 * d / std::min(Ib[0], Ib[1]))); hold += X[j].tick > dt * 1.5 ? jump[j] : 0; hs[j] = h; }
    V3 H = total(k); double scale = 0; for (int j = 0; j < 3; j++) scale = std::max(scale, Ib[j]); c.Probe("momentum balances"); double tol = slack + hold * 1.01 + 1e-6 * (Norm(H0) + scale * w) + 1e-9; c.Check(Norm(H - H0) <= tol, "conservation", "the angular momentum of body and wheels changed by %.6g of %.6g Nms until %.9g s, the finite ticks allow %.6g", Norm(H - H0), Norm(H0), last, tol);
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); { Case cs(hk, false); cs.Initialize(); cs.Main(); for (auto& f : final) f(); } g_clock.active = false; c.sim_time_s = last;
}
Registrar reg{[] { Property p; p.id = "A01"; p.generate = [](uint64_t s, bool t) { return GenFor(s, t, false); }; p.execute = Run; p.quick_runs = 1500; p.thorough_runs = 60000; p.states_measure = "distinct (actuator, noise sources, powered, start-up)"; p.simple = {{"m_comp", 1}, {"m_att", 1}};
  p.real = "complete simulation case with magnetorquers, thrusters, force and torque generators and magnetometers"; p.stub = "SPICE ephemerides are analytic"; p.level_note = "errors bounded by 8 configured deviations and by sample statistics over runs of 100 and more samples"; return p; }()};
Registrar reg2{[] { Property p; p.id = "A02"; p.generate = [](uint64_t s, bool t) { return GenFor(s, t, true); }; p.execute = Run; p.quick_runs = 1500; p.thorough_runs = 60000; p.states_measure = "distinct (driven, power cycled, direction, delay, beyond the speed limit)"; p.simple = {{"m_comp", 1}, {"m_att", 1}};
  p.real = "complete simulation case with reaction wheels and attitude dynamics"; p.stub = "SPICE ephemerides are analytic"; p.level_note = "total angular momentum within the effect of finite ticks, wheel response by delay and lag"; return p; }()};
}  // namespace
