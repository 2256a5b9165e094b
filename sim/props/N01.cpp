// Sensors of a complete simulation under seeded trajectories, attitude jumps, exact pointing at bodies and power cycles. A recorder component with the
// same schedule and power port as each sensor judges every reading against the simulated truth at the sampling instant.
#include <SpiceUsr.h>
#include <array>
#include <cmath>
#include <math_physics/randomization/global_randomization.hpp>
#include <sstream>
#include "world/mission.hpp"
using namespace sim;
using namespace s2e::components;
namespace {
const char* kBody[] = {"SUN", "EARTH", "MOON"};
const double kDeg = M_PI / 180;
enum Kind { kGyroS, kMagS, kRateS, kStarS, kSunS, kGnssS, kAttS, kOrbS, kTeleS, kKinds };
const char* kName[] = {"gyro sensor", "magnetometer", "angular velocity observer", "star sensor", "sun sensor", "GNSS receiver", "attitude observer", "orbit observer", "telescope"};
struct Spread { double n = 0, sum[6] = {}, sq[6] = {}; void Add(const V3& a, const V3& b) { n++; for (int j = 0; j < 6; j++) { double x = j < 3 ? a[j] : b[j - 3]; sum[j] += x; sq[j] += x * x; } }
  void Judge(Ctx& c, const V3& sa, const V3& sb, const std::string& who) { if (n < 100) return; c.Probe("noise statistics"); for (int j = 0; j < 6; j++) { double s = j < 3 ? sa[j] : sb[j - 3], d = std::sqrt(sq[j] / n), m = sum[j] / n; if (s > 1e-5) c.Check(d > 0.6 * s && d < 1.5 * s && std::fabs(m) < 6 * s / std::sqrt(n), "noise-size", "error %d of %s over %.0f samples: mean %.6g, deviation %.6g, configured %.6g", j, who.c_str(), n, m, d, s); } } };
struct Recorder : public Component {
  Recorder(int pre, s2e::environment::ClockGenerator* clk, PowerPort* port, std::function<void()> f) : Component(pre, clk, port), on(f) {}
  Recorder(int pre, s2e::environment::ClockGenerator* clk, std::function<void()> f) : Component(pre, clk), on(f) {}
  std::function<void()> on;
  void MainRoutine(const int) override { on(); }
};
Quat Mul(const Quat& p, const Quat& q) { Quat o; o[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2]; V3 u = Vec(p[0], p[1], p[2]), v = Vec(q[0], q[1], q[2]), x = cross(u, v); for (int i = 0; i < 3; i++) o[i] = p[3] * v[i] + q[3] * u[i] + x[i]; return o; }
Quat Inv(const Quat& q) { Quat o = q; for (int i = 0; i < 3; i++) o[i] = -q[i]; return o; }
V3 RotVec(const Quat& q) { V3 v = Vec(q[0], q[1], q[2]); double n = Norm(v), a = 2 * std::atan2(n, std::fabs(q[3])); if (q[3] < 0) v = -1.0 * v; return n < 1e-300 ? V3(0.0) : (a / n) * v; }
// frame rotation that takes direction d (unit) of the old frame to the unit vector e of the new frame, with a roll about e
Quat Pointing(const V3& d, const V3& e, double roll) {  // vectors are rotated from e to d, frames the other way
  V3 h = e + d; double n = Norm(h); if (n < 1e-6) { V3 k = std::fabs(e[0]) < 0.5 ? Vec(1, 0, 0) : Vec(0, 1, 0); h = cross(e, k); n = Norm(h); } h = (1 / n) * h;  // half turn about h maps e on d
  Quat a; for (int i = 0; i < 3; i++) a[i] = h[i]; a[3] = 0; Quat b; for (int i = 0; i < 3; i++) b[i] = std::sin(roll / 2) * e[i]; b[3] = std::cos(roll / 2); return Mul(a, b);
}
double Angle(const V3& a, const V3& b) { return std::atan2(Norm(cross(a, b)), dot(a, b)); }
struct Clip { double constant, zero; double operator()(double x) const { double a = std::fabs(x); return a >= zero ? 0 : a >= constant ? std::copysign(constant, x) : x; } };

Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["seed"] = (double)r.Int(1, 2000000000); s.p["geo"] = (double)r.Int(1, 1000000000); s.p["dt"] = r.Pick<double>({0.01, 0.1, 0.1, 1, 2, 10}); s.p["m_comp"] = r.Chance(0.6) ? 1 : (double)r.Int(2, 4); s.p["m_att"] = r.Chance(0.7) ? 1 : (double)r.Int(2, 4); s.p["m_orb"] = r.Chance(0.7) ? 1 : (double)r.Int(2, 4);
  s.p["steps"] = r.Chance(0.15) ? r.Int(300, 700) : r.Int(10, thorough ? 200 : 80); s.p["spin"] = r.Chance(0.2) ? 0 : r.LogUni(1e-4, 0.3); s.p["shadow"] = r.Chance(0.3); s.p["stars"] = r.Chance(0.5) ? (double)r.Int(0, 12) : -1; s.p["alt"] = r.Chance(0.8) ? r.Uni(300, 2000) : r.LogUni(2000, 60000); s.p["ecc"] = r.Uni(1, 1.15);
  long n = r.Int(1, 6); s.p["n"] = n;
  for (int i = 0; i < n; i++) { auto K = [&](const char* k) { return Fmt("k%d.%s", i, k); }; s.p[K("type")] = (double)r.Int(0, kKinds - 1); s.p[K("pre")] = r.Chance(0.5) ? r.Int(0, 1) : (double)r.Int(2, 5); s.p[K("noise")] = (double)r.Pick<long>({0, 0, 1, 2, 3}); s.p[K("seed")] = (double)r.Int(1, 1000000000); s.p[K("clip")] = r.Chance(0.4) ? (double)r.Int(1, 4) : 0; s.p[K("port")] = r.Chance(0.7); }
  long e = r.Int(0, 12), steps = s.L("steps");
  for (long i = 0; i < e; i++) {
    long t = r.Int(1, steps); double k = (double)r.Int(0, n - 1);
    switch (r.Int(0, 5)) {
      case 0: case 1: s.Add(t, "power", {k, r.Chance(0.5) ? 0.0 : 5.0}); break;
      case 2: s.Add(t, "jump", {(double)r.Int(1, 1000000000)}); break;
      case 3: s.Add(t, "rate", {r.Gauss() * 0.1, r.Gauss() * 0.1, r.Gauss() * 0.1}); break;
      default: s.Add(t, "point", {k, (double)r.Int(0, 2), r.Chance(0.4) ? 0.0 : r.Chance(0.3) ? M_PI : r.Uni(0, 2), r.Uni(0, 6.28)}); break;
    }
  }
  for (long i = 0; i < n; i++) if (r.Chance(0.2)) { s.p[Fmt("k%ld.direct", i)] = 1; if (r.Chance(0.6)) s.p[Fmt("k%ld.clip", i)] = (double)r.Int(1, 4); }
  s.SortEvents(); return s;
}

struct Sens {
  int k, type, pre; double comp_step; bool noise_w, noise_r; std::unique_ptr<PowerPort> port; std::shared_ptr<void> obj; Quat b2c; V3 sight; std::function<std::vector<double>()> read; std::function<void()> judge; std::vector<double> last; long ticks = 0; bool fresh = false, blind = false;
  std::string Who(double t) const { return Fmt("%s %d at %.9g s", kName[type], k, t); }
};
void Run(const Script& s, Ctx& c) {
  double dt = s.P("dt", 1), comp = dt * std::max(1L, s.L("m_comp", 1)); long steps = std::max(1L, s.L("steps", 5)); Settings st(1, 0); st.Quiet(); st.AllDisturbancesOff(0); st.AllNoiseOff(0); auto& b = st.base; auto& S = st.sat[0]; Rng r((uint64_t)s.P("geo", 1));
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:%ld:%ld", r.Int(2018, 2026), r.Int(1, 12), r.Int(1, 28), r.Int(0, 23), r.Int(0, 59), r.Int(0, 59))).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", 0.0).Set("TIME", "attitude_update_period_s", dt * std::max(1L, s.L("m_att", 1))).Set("TIME", "orbit_update_period_s", dt * std::max(1L, s.L("m_orb", 1))).Set("TIME", "thermal_update_period_s", dt).Set("TIME", "component_update_period_s", comp).Set("TIME", "log_output_period_s", dt * 1000).Set("TIME", "orbit_integral_step_s", dt).Set("TIME", "attitude_integral_step_s", std::min(dt, 0.5)).Set("TIME", "thermal_integral_step_s", dt);
  const char* CI = "CELESTIAL_INFORMATION"; b.Set(CI, "center_object", "EARTH").Set(CI, "number_of_selected_body", 3.0); for (int i = 0; i < 3; i++) b.Set(CI, Fmt("selected_body_name(%d)", i), kBody[i]).Set(CI, Fmt("rotation_mode(%d)", i), i == 1 ? "SIMPLE" : "IDLE");
  V3 u = RandDir(r); double rad = 6378136.6 + 1e3 * s.P("alt", 500);
  {
    auto& l = st.local[0]; l.Enable("MAGNETIC_FIELD_ENVIRONMENT", "calculation", true).Enable("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", true).Enable("ATMOSPHERE", "calculation", false); const char* M = "MAGNETIC_FIELD_ENVIRONMENT"; l.Set(M, "magnetic_field_random_walk_standard_deviation_nT", 0.0).Set(M, "magnetic_field_random_walk_limit_nT", 0.0).Set(M, "magnetic_field_white_noise_standard_deviation_nT", 0.0);
    V3 t = cross(u, RandDir(r)), vel = (std::sqrt(3.986e14 / rad) * s.P("ecc", 1) / Norm(t)) * t;
    S.Set("ORBIT", "propagate_mode", "RK4").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Vec("ORBIT", "initial_position_i_m", rad * u).Vec("ORBIT", "initial_velocity_i_m_s", vel); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) S.Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", k), q[k]);
    S.Set("ATTITUDE", "propagate_mode", "RK4").Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", s.P("spin") * RandDir(r)).Vec("ATTITUDE", "initial_torque_b_Nm", V3(0.0));
  }
  long stars = s.L("stars", -1); struct StarRow { int id; double mag, ra, de; }; std::vector<StarRow> cat; double max_mag = 3.0;
  const char* H = "HIPPARCOS_CATALOGUE"; b.Enable(H, "calculation", stars >= 0).Set(H, "max_magnitude", max_mag).Set(H, "catalogue_file_path", "SETTINGS_DIR_FROM_EXE/environment/star_catalogue/own.csv");
  st.Write(); WriteGravityFiles();
  if (stars >= 0) { std::string t = "hip_num,vmag,ra,de\n"; double m = -1; for (long i = 0; i < stars; i++) { m += r.Uni(0, 0.5); StarRow e{(int)r.Int(1, 100000), m, r.Uni(0, 360), r.Uni(-90, 90)}; t += Fmt("%d,%.4f,%.9f,%.9f\n", e.id, e.mag, e.ra, e.de); if (m <= max_mag) cat.push_back(e); } WriteFile("settings/environment/star_catalogue/own.csv", t); c.Count("star catalogues"); if (cat.empty()) c.Count("empty star catalogue"); }
  Case* cp = nullptr; std::vector<Sens> X((size_t)std::min(12L, std::max(1L, s.L("n", 1)))); double last = 0; size_t next = 0; std::vector<std::function<void()>> final;
  Case::Hooks hk;
  hk.build = [&](Craft& k, Parts& p) {
    s2e::dynamics::Dynamics* dy = &k.Dyn(); s2e::environment::LocalEnvironment* en = &k.Env();
    auto* clk = &k.Clock(); auto& tm = k.global->GetSimulationTime();
    for (size_t i = 0; i < X.size(); i++) {
      auto& x = X[i]; auto P = [&, i](const char* n, double d = 0) { return s.P(Fmt("k%zu.%s", i, n), d); }; x.k = (int)i; x.type = (int)std::min(8L, std::max(0L, (long)P("type"))); Rng q((uint64_t)P("seed", 1)); long nz = (long)P("noise"); x.noise_w = nz & 1; x.noise_r = nz & 2; x.pre = (int)P("pre", 1); int pre_eff = std::max(1, x.pre);
      x.comp_step = comp * pre_eff; x.b2c = RandQuat(q); x.sight = x.type == kSunS || x.type == kGnssS ? Vec(0, 0, 1) : Vec(1, 0, 0); int id = (int)i + 1; std::string file = Fmt("settings/sat0/components/k%zu.ini", i); Ini f; std::string sec;
      bool ported = P("port", 1) > 0 && x.type != kRateS && x.type != kAttS && x.type != kOrbS && x.type != kTeleS; if (ported) { x.port.reset(new PowerPort((int)i, 100.0)); f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 1.0); }
      auto quat = [&] { for (int j = 0; j < 4; j++) f.Set(sec, Fmt("quaternion_b2c(%d)", j), x.b2c[j]); };
      std::shared_ptr<Sensor<3>> direct;
      auto make_sensor = [&](const std::string& base, const std::string& unit, double scale, std::function<V3()> truth) {
        double S3[9]; bool ident = q.Chance(0.4); for (int j = 0; j < 9; j++) S3[j] = j % 4 == 0 ? 1 : 0; if (!ident) for (int j = 0; j < 9; j++) S3[j] += 0.1 * q.Gauss(); bool zeroed = ident && q.Chance(0.5);
        V3 bias(0.0), sw(0.0), sr(0.0), lim(0.0); if (q.Chance(0.6)) bias = 0.1 * scale * Vec(q.Gauss(), q.Gauss(), q.Gauss());
        for (int j = 0; j < 3; j++) { if (x.noise_w && !q.Chance(0.15)) sw[j] = scale * q.LogUni(1e-4, 0.1); if (x.noise_r && !q.Chance(0.15)) { sr[j] = scale * q.LogUni(1e-4, 0.1); lim[j] = scale * q.LogUni(1e-3, 0.3); } }
        double rc = 1e3 * scale, rz = 1e4 * scale; long cl = (long)P("clip"); if (cl) { c.Count("sensors with tight output range"); rc = scale * q.LogUni(0.05, 1); rz = rc * q.Uni(1, 3); if (cl == 2) { rc = -rc; c.Count("negative range setting"); } if (cl == 3) { rz = rc * q.Uni(0.2, 0.9); c.Count("zero range below constant range"); } if (cl == 4) rz = rc; }
        std::string B = "SENSOR_BASE_" + base; for (int j = 0; j < 9; j++) f.Set(B, Fmt("scale_factor_c(%d)", j), zeroed ? 0.0 : S3[j]); f.Vec(B, "constant_bias_c_" + unit, bias).Vec(B, "normal_random_standard_deviation_c_" + unit, sw).Vec(B, "random_walk_standard_deviation_c_" + unit, sr).Vec(B, "random_walk_limit_c_" + unit, lim).Set(B, "range_to_constant_" + unit, rc).Set(B, "range_to_zero_" + unit, rz);
        std::array<Clip, 3> clip; V3 rcv(rc), rzv(rz); if (P("direct") > 0) for (int j = 0; j < 3; j++) { rcv[j] *= q.LogUni(0.3, 3); rzv[j] *= q.LogUni(0.3, 3); }
        for (int j = 0; j < 3; j++) { double a = std::fabs(rcv[j]), z = std::fabs(rzv[j]); if (a > z) z = 2 * a; clip[j] = Clip{a, z}; }
        if (P("direct") > 0) { s2e::math::Matrix<3, 3> sf; for (int j = 0; j < 9; j++) sf[j / 3][j % 3] = S3[j]; direct = std::make_shared<Sensor<3>>(sf, rcv, rzv, bias, sw, x.comp_step, sr, lim); c.Count("sensors with a range per axis"); }
        struct Walk { long last[3] = {-9, -9, -9}, n[3] = {}, still[3] = {}; double d[3] = {}, sq[3] = {}; }; auto walk = std::make_shared<Walk>();
         auto res = std::make_shared<std::vector<V3>>(); std::vector<double> sm(S3, S3 + 9); double cs = x.comp_step;
        x.judge = [&, walk, dy, en, i, clips = clip, sm, bias, sw, sr, lim, truth, res, scale, cs] {
          auto& x = X[i]; V3 t = truth(), e(0.0); auto v = x.read(); double T = Norm(t); for (int j = 0; j < 3; j++) { for (int l = 0; l < 3; l++) e[j] += sm[3 * j + l] * t[l]; e[j] += bias[j]; } V3 d(0.0); bool clear = true;
          for (int j = 0; j < 3; j++) {
            const Clip clip = clips[j]; double tol = 1e-9 * (T + Norm(bias)) + 1e-12 * scale, bound = 8 * sw[j] + (sr[j] > 0 ? (x.ticks == 0 ? 0 : std::min(8 * sr[j] * cs * x.ticks, lim[j] + 8 * sr[j] * cs)) : 0), lo = e[j] - bound - tol, hi = e[j] + bound + tol, got = v[j], a = std::fabs(got); c.Probe("sensor readings");
            c.Check(std::isfinite(got) && a <= clip.constant * (1 + 1e-12), "range", "axis %d of %s reads %.9g with an output range of %.9g", j, x.Who(cp->Time().GetElapsedTime_s()).c_str(), got, clip.constant);
            bool ok = false; if (got >= lo && got <= hi && a < clip.constant) ok = true; if (a == clip.constant && (got > 0 ? hi >= clip.constant && lo < clip.zero : lo <= -clip.constant && hi > -clip.zero)) ok = true; if (got == 0 && (hi >= clip.zero || lo <= -clip.zero)) ok = true;
            c.Check(ok, "sensor-value", "axis %d of %s reads %.12g, the transformed truth is %.12g (range %.9g, %.9g), largest error %.9g", j, x.Who(cp->Time().GetElapsedTime_s()).c_str(), got, e[j], clip.constant, clip.zero, bound);
            d[j] = got - e[j]; if (!(std::fabs(e[j]) + bound < clip.constant)) clear = false; if (clip(e[j]) != e[j]) c.Count("saturated readings");
            if (sr[j] > 0 && sw[j] == 0 && got != 0 && a < clip.constant) { if (walk->last[j] == x.ticks - 1) { double st = (d[j] - walk->d[j]) / (sr[j] * cs); walk->n[j]++; walk->sq[j] += st * st; if (std::fabs(st) < 1e-4) walk->still[j]++; } walk->last[j] = x.ticks; walk->d[j] = d[j]; }
          }
          if (clear) res->push_back(d); 
        };
        return std::function<void()>([&, i, res, sw, sr, lim, cs, walk] {  // statistics of the error over the run
          for (int j = 0; j < 3; j++) if (walk->n[j] >= 40) { c.Probe("walk statistics"); double m = walk->sq[j] / walk->n[j]; c.Check(walk->still[j] < 0.2 * walk->n[j] && m > (lim[j] > 5 * sr[j] * cs ? 0.08 : 0.005) && m < 4, "walk-step", "the random walk of axis %d of %s %d moves by %.6g deviations in %ld steps and rests in %ld", j, kName[X[i].type], (int)i, std::sqrt(m), walk->n[j], walk->still[j]); }
          size_t N = res->size(); if (N < 100 || Norm(sr) > 0) { if (N >= 50 && Norm(sr) > 0) for (int j = 0; j < 3; j++) if (sr[j] > 0 && sw[j] == 0) c.Check((*res)[N - 1][j] != (*res)[0][j], "walk-stuck", "the random walk of axis %d of %s %d never moves", j, kName[X[i].type], (int)i); return; }
          double mean[3] = {}, var[3] = {}; for (auto& d : *res) for (int j = 0; j < 3; j++) mean[j] += d[j] / N; for (auto& d : *res) for (int j = 0; j < 3; j++) var[j] += (d[j] - mean[j]) * (d[j] - mean[j]) / N; c.Probe("noise statistics");
          for (int j = 0; j < 3; j++) if (sw[j] > 0) { double sd = std::sqrt(var[j]); c.Check(sd > 0.6 * sw[j] && sd < 1.5 * sw[j] && std::fabs(mean[j]) < 6 * sw[j] / std::sqrt((double)N), "noise-size", "white noise of axis %d of %s %d over %zu samples: mean %.6g, deviation %.6g, configured %.6g", j, kName[X[i].type], (int)i, N, mean[j], sd, sw[j]);
            for (int l = 0; l <= j; l++) if (sw[l] > 0) for (long g = l == j ? 1 : -4; g <= 4; g++) { double cv = 0; for (long n = std::max(0L, -g); n < (long)N && n + g < (long)N; n++) cv += ((*res)[n][j] - mean[j]) * ((*res)[n + g][l] - mean[l]) / N; cv /= std::sqrt(var[j] * var[l]); c.Check(std::fabs(cv) < 0.75, "noise-independent", "white noise of axes %d and %d of %s %d is correlated by %.3f at a distance of %ld samples", j, l, kName[X[i].type], (int)i, cv, g); } }
        });
      };
      std::function<void()> stats;
      auto stat_of = [&](std::function<void()> f) { stats = f; };
      auto rd3 = [](const V3& v) { return std::vector<double>{v[0], v[1], v[2]}; };
      if (x.type == kGyroS) {
        sec = Fmt("GYRO_SENSOR_%d", id); f.Set(sec, "prescaler", (double)x.pre); quat(); double sc = q.LogUni(0.01, 1); stat_of(make_sensor(sec, "rad_s", sc, [dy, &X, i] { return RotI2B(X[i].b2c, dy->GetAttitude().GetAngularVelocity_b_rad_s()); })); WriteFile(file, f.Text());
        auto o = std::make_shared<GyroSensor>(direct ? ported ? GyroSensor(x.pre, clk, x.port.get(), *direct, id, x.b2c, dy) : GyroSensor(x.pre, clk, *direct, id, x.b2c, dy) : ported ? InitGyroSensor(clk, x.port.get(), id, file, comp, dy) : InitGyroSensor(clk, id, file, comp, dy)); x.obj = o; x.read = [o = o.get(), rd3] { return rd3(o->GetMeasuredAngularVelocity_c_rad_s()); };
      } else if (x.type == kMagS) {
        sec = Fmt("MAGNETOMETER_%d", id); f.Set(sec, "prescaler", (double)x.pre); quat(); stat_of(make_sensor(sec, "nT", q.LogUni(1e4, 1e5), [en, &X, i] { return RotI2B(X[i].b2c, en->GetGeomagneticField().GetGeomagneticField_b_nT()); })); WriteFile(file, f.Text());
        auto o = std::make_shared<Magnetometer>(direct ? ported ? Magnetometer(x.pre, clk, x.port.get(), *direct, id, x.b2c, &en->GetGeomagneticField()) : Magnetometer(x.pre, clk, *direct, id, x.b2c, &en->GetGeomagneticField()) : ported ? InitMagnetometer(clk, x.port.get(), id, file, comp, &en->GetGeomagneticField()) : InitMagnetometer(clk, id, file, comp, &en->GetGeomagneticField())); x.obj = o; x.read = [o = o.get(), rd3] { return rd3(o->GetMeasuredMagneticField_c_nT()); };
      } else if (x.type == kRateS) {
        f.Set("COMPONENT_BASE", "prescaler", (double)x.pre); stat_of(make_sensor("ANGULAR_VELOCITY_OBSERVER", "rad_s", q.LogUni(0.01, 1), [dy] { return dy->GetAttitude().GetAngularVelocity_b_rad_s(); })); WriteFile(file, f.Text());
        auto o = std::make_shared<AngularVelocityObserver>(direct ? AngularVelocityObserver(x.pre, clk, *direct, dy->GetAttitude()) : InitializeAngularVelocityObserver(clk, file, comp, dy->GetAttitude())); x.obj = o; x.read = [o = o.get(), rd3] { return rd3(o->GetAngularVelocity_b_rad_s()); };
      } else if (x.type == kStarS) {
        sec = Fmt("STAR_SENSOR_%d", id); f.Set(sec, "prescaler", (double)x.pre); quat(); double so = x.noise_w ? q.LogUni(1e-5, 3e-2) : 0, ss = x.noise_r ? q.LogUni(1e-5, 3e-2) : 0; long delay = q.Chance(0.3) ? 0 : q.Int(1, 12), every = q.Chance(0.4) ? 1 : q.Int(2, 6); double ex[3] = {q.Uni(0, 60), q.Uni(0, 60), q.Uni(0, 40)}, rate = q.Chance(0.5) ? q.LogUni(0.01, 20) : 1e4;
        f.Set(sec, "standard_deviation_orthogonal_direction_rad", so).Set(sec, "standard_deviation_sight_direction_rad", ss).Set(sec, "output_delay_s", delay ? (delay + q.Uni(0.2, 0.8)) * x.comp_step : 0.0).Set(sec, "output_interval_s", (every + q.Uni(0.2, 0.8)) * x.comp_step).Set(sec, "sun_exclusion_angle_deg", ex[0]).Set(sec, "earth_exclusion_angle_deg", ex[1]).Set(sec, "moon_exclusion_angle_deg", ex[2]).Set(sec, "angular_rate_limit_deg_s", rate); delay = std::max(1L, delay); WriteFile(file, f.Text());
        auto o = std::make_shared<StarSensor>(ported ? InitStarSensor(clk, x.port.get(), id, file, comp, dy, en) : InitStarSensor(clk, id, file, comp, dy, en)); x.obj = o; x.read = [o = o.get()] { Quat m = o->GetMeasuredQuaternion_i2c(); return std::vector<double>{m[0], m[1], m[2], m[3], (double)o->GetErrorFlag()}; };
        std::vector<double> exr = {ex[0] * kDeg, ex[1] * kDeg, ex[2] * kDeg, rate * kDeg}; auto truth = std::make_shared<std::vector<Quat>>(); auto errs = std::make_shared<std::vector<V3>>();
        x.judge = [&, dy, en, i, so, ss, delay, every, exr, truth, errs] {
          auto& x = X[i]; double t = cp->Time().GetElapsedTime_s(); auto v = x.read(); Quat got; for (int j = 0; j < 4; j++) got[j] = v[j]; truth->push_back(Mul(dy->GetAttitude().GetQuaternion_i2b(), x.b2c)); long n = (long)truth->size() - 1; c.Probe("star sensor outputs");
          double len = std::sqrt(got[0] * got[0] + got[1] * got[1] + got[2] * got[2] + got[3] * got[3]); c.Near(len, 1, 1e-6, "star-unit", "length of the quaternion of " + x.Who(t));
          if (n % every == 0) {
            if (n - delay < 0) { c.Check(std::fabs(std::fabs(got[3]) - 1) < 1e-12, "star-delay", "%s reports a measurement before the delay of %ld samples has passed", x.Who(t).c_str(), delay); }
            else {
              V3 e = RotVec(Mul(Inv((*truth)[n - delay]), got)); double quad = 1e-6 + 70 * (so + ss) * (so + ss); if (so + ss == 0) quad = 1e-7;
              c.Check(std::fabs(e[0]) <= 8 * ss + quad && std::hypot(e[1], e[2]) <= 8 * so + quad, "star-value", "%s (delay %ld samples, output every %ld) is off the attitude of its delay by (%.6g, %.6g, %.6g) rad, configured deviations %.6g about and %.6g across the sight", x.Who(t).c_str(), delay, every, e[0], e[1], e[2], ss, so); errs->push_back(e);
            }
          } else c.Check(x.last.size() == 5 && v[0] == x.last[0] && v[1] == x.last[1] && v[2] == x.last[2] && v[3] == x.last[3], "star-interval", "%s changed its output between two output times (every %ld samples)", x.Who(t).c_str(), every);
          bool want = false, sure = true; V3 sight = RotB2I(x.b2c, Vec(1, 0, 0));
          for (int j = 0; j < 3; j++) { V3 d = en->GetCelestialInformation().GetPositionFromSpacecraft_b_m(kBody[j]); double a = Angle(d, sight) - (j == 1 ? std::asin(std::min(1.0, 6378137.0 / Norm(d))) : 0); if (std::fabs(a - exr[j]) < 2e-6) sure = false; if (a < exr[j]) { want = true; c.Count(Fmt("%s in the exclusion angle of a star sensor", kBody[j])); } }
          double w = Norm(dy->GetAttitude().GetAngularVelocity_b_rad_s()); if (std::fabs(w - exr[3]) < 1e-9) sure = false; if (w > exr[3]) { want = true; c.Count("rate above the limit of a star sensor"); }
          if (sure) c.Check((v[4] != 0) == want, "star-error", "%s reports %s, the geometry says %s (exclusions %.4g %.4g %.4g rad, rate %.4g of %.4g rad/s)", x.Who(t).c_str(), v[4] != 0 ? "an error" : "no error", want ? "error" : "no error", exr[0], exr[1], exr[2], w, exr[3]);
        };
        stats = [&, errs, so, ss, i] { size_t N = errs->size(); if (N < 100) return; double a = 0, bq = 0, cq = 0; for (auto& e : *errs) { a += e[0] * e[0] / N; bq += e[1] * e[1] / N; cq += e[2] * e[2] / N; } c.Probe("noise statistics"); if (ss > so * so * 10) c.Check(std::sqrt(a) > 0.6 * ss && std::sqrt(a) < 1.5 * ss, "noise-size", "deviation about the sight of star sensor %zu over %zu samples is %.6g, configured %.6g", i, N, std::sqrt(a), ss); if (so > ss * so * 10) c.Check(std::sqrt(bq + cq) > 0.6 * so && std::sqrt(bq + cq) < 1.5 * so && std::min(bq, cq) > 0.15 * (bq + cq), "noise-size", "deviations across the sight of star sensor %zu over %zu samples are %.6g and %.6g, configured %.6g", i, N, std::sqrt(bq), std::sqrt(cq), so); };
      } else if (x.type == kSunS) {
        sec = Fmt("SUN_SENSOR_%d", id); f.Set(sec, "prescaler", (double)x.pre); quat(); double fov = q.Uni(5, 85), sw = x.noise_w ? q.LogUni(1e-3, 1) : 0, sb = x.noise_r ? q.LogUni(1e-2, 2) : 0, thr = q.Chance(0.3) ? 0 : q.Uni(0, 80);
        f.Set(sec, "field_of_view_deg", fov).Set(sec, "white_noise_standard_deviation_deg", sw).Set(sec, "bias_standard_deviation_deg", sb).Set(sec, "intensity_lower_threshold_percent", thr); WriteFile(file, f.Text()); auto* srp = &en->GetSolarRadiationPressure(); auto* ci = &en->GetCelestialInformation();
        auto o = std::make_shared<SunSensor>(ported ? InitSunSensor(clk, x.port.get(), id, file, srp, ci) : InitSunSensor(clk, id, file, srp, ci)); x.obj = o; x.read = [o = o.get()] { V3 d = o->GetMeasuredSunDirection_c(); return std::vector<double>{d[0], d[1], d[2], o->GetSunAngleAlpha_rad(), o->GetSunAngleBeta_rad(), (double)o->GetSunDetectedFlag(), o->GetSolarIlluminance_W_m2()}; };
        auto first = std::make_shared<std::vector<double>>();
        x.judge = [&, dy, en, i, fov, sw, sb, thr, srp, ci, first, o = o.get()] {
          auto& x = X[i]; double t = cp->Time().GetElapsedTime_s(); auto v = x.read(); V3 d = RotI2B(x.b2c, ci->GetPositionFromSpacecraft_b_m("SUN")); d = (1 / Norm(d)) * d; double a = Angle(d, Vec(0, 0, 1)), lum = a > M_PI / 2 ? 0 : srp->GetPowerDensity_W_m2() * std::cos(a), lim = thr / 100 * srp->GetSolarConstant_W_m2(); bool det = v[5] != 0; c.Probe("sun sensor outputs"); if (lum < lim && a < fov * kDeg) c.Count("sun too weak for a sun sensor");
          c.Near(v[6], lum, 1e-6 * srp->GetSolarConstant_W_m2(), "illuminance", "illuminance of " + x.Who(t));
          if (std::fabs(a - fov * kDeg) > 1e-6 && (lim == 0 || std::fabs(lum - lim) > 1e-3)) c.Check(det == (a < fov * kDeg && lum >= lim), "sun-detected", "%s reports the sun %s: angle %.6f of %.6f rad, illuminance %.6g, threshold %.6g W/m2", x.Who(t).c_str(), det ? "detected" : "not detected", a, fov * kDeg, lum, lim);
          V3 m = Vec(v[0], v[1], v[2]); if (!det) { c.Check(Norm(m) == 0 && v[3] == 0 && v[4] == 0, "sun-lost", "%s without the sun reports a direction of length %.6g", x.Who(t).c_str(), Norm(m)); return; }
          double al = std::atan2(d[0], d[2]), be = std::atan2(d[1], d[2]), bound = 8 * (sw + sb) * kDeg + 1e-7; auto fold = [](double y) { return y > M_PI / 2 ? M_PI - y : y < -M_PI / 2 ? -M_PI - y : y; };
          for (int j = 0; j < 2; j++) { double want = j ? be : al, got = v[3 + j]; c.Check(std::fabs(got) <= M_PI / 2 + 1e-12 && (std::fabs(got - want) <= bound || std::fabs(fold(want + bound) - got) <= 2 * bound), "sun-angle", "%s angle of %s is %.9g, true %.9g, largest error %.6g rad", j ? "second" : "first", x.Who(t).c_str(), got, want, bound); }
          V3 e = Vec(std::tan(v[3]), std::tan(v[4]), 1); e = (1 / Norm(e)) * e; NearV(c, m, e, 1e-9, "sun-direction", "direction given the angles of " + x.Who(t)); if (sw + sb == 0) NearV(c, m, d, 1e-7, "sun-direction", "direction of an ideal " + x.Who(t));
          NearV(c, o->GetMeasuredSunDirection_b(), RotB2I(x.b2c, m), 1e-9, "sun-body", "direction in the body frame of " + x.Who(t));
          if (sw == 0 && std::fabs(al) < 1.2 && std::fabs(be) < 1.2 && std::fabs(v[3]) < 1.4 && std::fabs(v[4]) < 1.4) { if (first->empty()) *first = {v[3] - al, v[4] - be}; else for (int j = 0; j < 2; j++) c.Near(v[3 + j] - (j ? be : al), (*first)[j], 1e-7, "sun-bias", "constant error of " + x.Who(t)); if (sb > 0) c.Check((*first)[0] != 0 || (*first)[1] != 0, "sun-bias", "%s has no bias", x.Who(t).c_str()); }
        };
      } else if (x.type == kGnssS) {
        sec = Fmt("GNSS_RECEIVER_%d", id); f.Set(sec, "prescaler", (double)x.pre); quat(); V3 sp(0.0), sv(0.0); if (x.noise_w) for (int j = 0; j < 3; j++) sp[j] = q.LogUni(0.01, 1e4); if (x.noise_r) for (int j = 0; j < 3; j++) sv[j] = q.LogUni(1e-3, 10);
        f.Set(sec, "antenna_model", q.Chance(0.7) ? "SIMPLE" : "CONE").Vec(sec, "antenna_position_b_m", Vec(0.1, 0.2, 0.3)).Set(sec, "antenna_half_width_deg", 60.0).Vec(sec, "white_noise_standard_deviation_position_ecef_m", sp).Vec(sec, "white_noise_standard_deviation_velocity_ecef_m_s", sv); WriteFile(file, f.Text()); auto* gs = &k.global->GetGnssSatellites();
        auto o = std::make_shared<GnssReceiver>(ported ? InitGnssReceiver(clk, x.port.get(), id, file, dy, gs, &tm) : InitGnssReceiver(clk, id, file, dy, gs, &tm)); x.obj = o;
        x.read = [o = o.get()] { V3 a = o->GetMeasuredPosition_ecef_m(), v = o->GetMeasuredVelocity_ecef_m_s(); auto g = o->GetMeasuredGeodeticPosition(); std::vector<double> w{a[0], a[1], a[2], v[0], v[1], v[2], g.GetLatitude_rad(), g.GetLongitude_rad(), g.GetAltitude_m()}; std::istringstream l(o->GetLogValue()); std::string e; while (std::getline(l, e, ',')) w.push_back(std::strtod(e.c_str(), nullptr)); return w; };
        auto sp_st = std::make_shared<Spread>(); stats = [&, sp, sv, sp_st, i] { sp_st->Judge(c, sp, sv, Fmt("GNSS receiver %zu", i)); };
        x.judge = [&, dy, en, i, sp, sv, sp_st] {
          auto& x = X[i]; double t = cp->Time().GetElapsedTime_s(); auto v = x.read(); auto& O = dy->GetOrbit(); V3 pos = Vec(v[0], v[1], v[2]), vel = Vec(v[3], v[4], v[5]), zen = RotI2B(x.b2c, RotI2B(dy->GetAttitude().GetQuaternion_i2b(), O.GetPosition_i_m())); bool see = zen[2] > 0, sure = std::fabs(zen[2]) > 1e-9 * Norm(zen); c.Probe("GNSS receiver outputs"); if (!see) c.Count("GNSS antenna towards the Earth");
          if (sure && v.size() >= 26) c.Check((v[24] != 0) == see, "gnss-visible", "%s reports the satellites %s with the antenna %.6g m along the zenith", x.Who(t).c_str(), v[24] != 0 ? "visible" : "invisible", zen[2]);
          if (v.size() >= 15) { auto U = cp->Time().GetCurrentUtc(); c.Check(v[9] == U.year && v[10] == U.month && v[11] == U.day && v[12] == U.hour && v[13] == U.minute && std::fabs(v[14] - U.second) < 1e-3, "gnss-time", "time of %s is %g/%g/%g %g:%g:%g, simulated %u/%u/%u %u:%u:%.6g", x.Who(t).c_str(), v[9], v[10], v[11], v[12], v[13], v[14], U.year, U.month, U.day, U.hour, U.minute, U.second); }
          if (!sure) return; if (!see) { for (int j = 0; j < 9; j++) if (!x.last.empty()) c.Check(v[j] == x.last[j], "gnss-hold", "%s changed a measurement without visible satellites", x.Who(t).c_str()); return; }
          sp_st->Add(pos - O.GetPosition_ecef_m(), vel - O.GetVelocity_ecef_m_s());
          for (int j = 0; j < 3; j++) { c.Near(pos[j], O.GetPosition_ecef_m()[j], 8 * sp[j] + 1e-6, "gnss-position", Fmt("position %d of ", j) + x.Who(t)); c.Near(vel[j], O.GetVelocity_ecef_m_s()[j], 8 * sv[j] + 1e-9, "gnss-velocity", Fmt("velocity %d of ", j) + x.Who(t)); }
          double fl = 1 / 298.257223563, e2 = fl * (2 - fl), N = 6378137 / std::sqrt(1 - e2 * std::sin(v[6]) * std::sin(v[6])); NearV(c, Vec((N + v[8]) * std::cos(v[6]) * std::cos(v[7]), (N + v[8]) * std::cos(v[6]) * std::sin(v[7]), (N * (1 - e2) + v[8]) * std::sin(v[6])), pos, 30, "gnss-geodetic", "geodetic position of " + x.Who(t));
        };
      } else if (x.type == kAttS) {
        double sg = x.noise_w ? q.LogUni(1e-3, 10) : 0; f.Set("COMPONENT_BASE", "prescaler", (double)x.pre).Set("ATTITUDE_OBSERVER", "error_angle_standard_deviation_deg", sg); WriteFile(file, f.Text()); auto o = std::make_shared<AttitudeObserver>(InitializeAttitudeObserver(clk, file, dy->GetAttitude())); x.obj = o; x.read = [o = o.get()] { Quat m = o->GetQuaternion_i2b(); return std::vector<double>{m[0], m[1], m[2], m[3]}; }; auto sq = std::make_shared<std::pair<long, double>>(0, 0.0);
        x.judge = [&, dy, en, i, sg, sq] { auto& x = X[i]; double t = cp->Time().GetElapsedTime_s(); auto v = x.read(); Quat m; for (int j = 0; j < 4; j++) m[j] = v[j]; c.Near(m[0] * m[0] + m[1] * m[1] + m[2] * m[2] + m[3] * m[3], 1, 1e-6, "attitude-unit", "square of the quaternion of " + x.Who(t)); double e = Norm(RotVec(Mul(m, Inv(dy->GetAttitude().GetQuaternion_i2b())))); c.Probe("attitude observations"); c.Near(e, 0, 8 * sg * kDeg + 1e-7, "attitude-value", "error angle of " + x.Who(t)); sq->first++; sq->second += e * e; };
        stats = [&, sg, sq, i] { if (sq->first < 100 || sg == 0) return; double d = std::sqrt(sq->second / sq->first) / kDeg; c.Probe("noise statistics"); c.Check(d > 0.6 * sg && d < 1.5 * sg, "noise-size", "error angle of attitude observer %zu has deviation %.6g, configured %.6g deg", i, d, sg); };
      } else if (x.type == kOrbS) {
        V3 sp(0.0), sv(0.0); bool rtn = q.Chance(0.6); if (x.noise_w) for (int j = 0; j < 3; j++) { if (q.Chance(0.6)) sp[j] = q.LogUni(0.01, 1e4); if (q.Chance(0.6)) sv[j] = q.LogUni(1e-3, 10); }
        f.Set("COMPONENT_BASE", "prescaler", (double)x.pre).Set("ORBIT_OBSERVER", "noise_frame", rtn ? "RTN" : q.Chance(0.8) ? "INERTIAL" : "ELSE").Vec("ORBIT_OBSERVER", "noise_standard_deviation", std::vector<double>{sp[0], sp[1], sp[2], sv[0], sv[1], sv[2]}); WriteFile(file, f.Text()); auto o = std::make_shared<OrbitObserver>(InitializeOrbitObserver(clk, file, dy->GetOrbit())); x.obj = o; x.read = [o = o.get()] { V3 a = o->GetPosition_i_m(), w = o->GetVelocity_i_m_s(); return std::vector<double>{a[0], a[1], a[2], w[0], w[1], w[2]}; };
        auto sp_st = std::make_shared<Spread>(); stats = [&, sp, sv, sp_st, i] { sp_st->Judge(c, sp, sv, Fmt("orbit observer %zu", i)); };
        x.judge = [&, dy, en, i, sp, sv, rtn, sp_st] {
          auto& x = X[i]; double t = cp->Time().GetElapsedTime_s(); auto v = x.read(); V3 rr = dy->GetOrbit().GetPosition_i_m(), vv = dy->GetOrbit().GetVelocity_i_m_s(), ep = Vec(v[0], v[1], v[2]) - rr, ev = Vec(v[3], v[4], v[5]) - vv; c.Probe("orbit observations");
          if (rtn) { V3 R = (1 / Norm(rr)) * rr, n = cross(rr, vv), N = (1 / Norm(n)) * n, T = cross(N, R); ep = Vec(dot(ep, R), dot(ep, T), dot(ep, N)); ev = Vec(dot(ev, R), dot(ev, T), dot(ev, N)); }
          sp_st->Add(ep, ev);
          for (int j = 0; j < 3; j++) { c.Near(ep[j], 0, 8 * sp[j] + 1e-6 + 1e-9 * Norm(sp), "orbit-position", Fmt("position error %d (%s) of ", j, rtn ? "RTN" : "inertial") + x.Who(t)); c.Near(ev[j], 0, 8 * sv[j] + 1e-9 + 1e-9 * Norm(sv), "orbit-velocity", Fmt("velocity error %d (%s) of ", j, rtn ? "RTN" : "inertial") + x.Who(t)); }
        };
      } else {
        x.pre = 1; sec = Fmt("TELESCOPE_%d", id); quat(); double ex[3] = {q.Uni(0, 90), q.Uni(0, 90), q.Uni(0, 60)}; long nx = q.Int(10, 2000), ny = q.Int(10, 2000), nl = q.Int(0, 5); double fx = q.Uni(1, 80), fy = q.Uni(1, 80);
        f.Set(sec, "sun_exclusion_angle_deg", ex[0]).Set(sec, "earth_exclusion_angle_deg", ex[1]).Set(sec, "moon_exclusion_angle_deg", ex[2]).Set(sec, "x_number_of_pixel", (double)nx).Set(sec, "y_number_of_pixel", (double)ny).Set(sec, "x_fov_deg_per_pixel", fx / nx).Set(sec, "y_fov_deg_per_pixel", fy / ny).Set(sec, "number_of_stars_for_log", (double)nl); WriteFile(file, f.Text());
        auto o = std::make_shared<Telescope>(InitTelescope(clk, id, file, &dy->GetAttitude(), &k.global->GetHipparcosCatalog(), &en->GetCelestialInformation(), &dy->GetOrbit())); x.obj = o; auto* lg = static_cast<const s2e::logger::ILoggable*>(o.get()); x.read = [o = o.get()] { return std::vector<double>{(double)o->GetIsSunInForbiddenAngle(), (double)o->GetIsEarthInForbiddenAngle(), (double)o->GetIsMoonInForbiddenAngle()}; };
        std::vector<double> exr = {ex[0] * kDeg, ex[1] * kDeg, ex[2] * kDeg};
        x.judge = [&, dy, en, i, exr, nx, ny, fx, fy, nl, lg] {
          auto& x = X[i]; double t = cp->Time().GetElapsedTime_s(); auto v = x.read(); V3 sight = RotB2I(x.b2c, Vec(1, 0, 0)); std::vector<double> w; { std::istringstream l(lg->GetLogValue()); std::string e; while (std::getline(l, e, ',')) w.push_back(std::strtod(e.c_str(), nullptr)); } c.Probe("telescope outputs"); double hx = fx * kDeg, hy = fy * kDeg;
          auto place = [&](V3 d, double gx, double gy, const std::string& what) {
            double ax = std::atan2(d[2], d[0]), ay = std::atan2(d[1], d[0]); if (std::fabs(std::fabs(ax) - hx) < 1e-5 || std::fabs(std::fabs(ay) - hy) < 1e-5) return; bool in = std::fabs(ax) < hx && std::fabs(ay) < hy; if (in) c.Count("objects in a telescope image");
            double wx = in ? nx / 2.0 * (1 + std::tan(ax) / std::tan(hx)) : -1, wy = in ? ny / 2.0 * (1 + std::tan(ay) / std::tan(hy)) : -1; c.Check(std::fabs(gx - wx) < (in ? 1.01 : 1e-6) + 1e-4 * nx && std::fabs(gy - wy) < (in ? 1.01 : 1e-6) + 1e-4 * ny && (in || (gx == -1 && gy == -1)), "telescope-image", "%s in the image of %s: (%.6g, %.6g), expected (%.6g, %.6g)", what.c_str(), x.Who(t).c_str(), gx, gy, wx, wy);
          };
          for (int j = 0; j < 3; j++) {
            V3 d = en->GetCelestialInformation().GetPositionFromSpacecraft_b_m(kBody[j]); double a = Angle(d, sight); if (a < exr[j]) c.Count("bodies in the exclusion angle of a telescope"); if (std::fabs(a - exr[j]) > 2e-6) c.Check((v[j] != 0) == (a < exr[j]), "telescope-exclusion", "%s reports %s %s its exclusion angle, the angle is %.9g of %.9g rad", x.Who(t).c_str(), kBody[j], v[j] != 0 ? "inside" : "outside", a, exr[j]);
            if (w.size() >= 9) place(RotI2B(x.b2c, d), w[3 + 2 * j], w[4 + 2 * j], kBody[j]);
          }
          if (stars >= 0) {
            c.Check(w.size() == 11 + 4 * (size_t)nl, "telescope-log", "%s logs %zu values for %ld stars", x.Who(t).c_str(), w.size(), nl); size_t pos = 0; bool vague = false; std::vector<size_t> vis; Quat qi = dy->GetAttitude().GetQuaternion_i2b();
            for (size_t k = 0; k < cat.size(); k++) { V3 d = Vec(std::cos(cat[k].ra * kDeg) * std::cos(cat[k].de * kDeg), std::sin(cat[k].ra * kDeg) * std::cos(cat[k].de * kDeg), std::sin(cat[k].de * kDeg)); d = RotI2B(x.b2c, RotI2B(qi, d)); double ax = std::fabs(std::atan2(d[2], d[0])), ay = std::fabs(std::atan2(d[1], d[0])); if (std::fabs(ax - hx) < 1e-5 || std::fabs(ay - hy) < 1e-5) vague = true; if (ax <= hx && ay <= hy) vis.push_back(k); }
            if (!vague) for (long k = 0; k < nl; k++) {
              double idv = w[11 + 4 * k]; if (pos >= vis.size()) { c.Check(idv == -1, "telescope-star", "%s lists star %g in place %ld, only %zu stars are in sight", x.Who(t).c_str(), idv, k, vis.size()); continue; } auto& e = cat[vis[pos++]]; c.Probe("stars in sight");
              c.Check(std::fabs(idv - e.id) <= 1e-4 * e.id && std::fabs(w[12 + 4 * k] - e.mag) < 1e-3, "telescope-star", "%s lists star %g (magnitude %g) in place %ld, expected %d (%g)", x.Who(t).c_str(), idv, w[12 + 4 * k], k, e.id, e.mag); V3 d = Vec(std::cos(e.ra * kDeg) * std::cos(e.de * kDeg), std::sin(e.ra * kDeg) * std::cos(e.de * kDeg), std::sin(e.de * kDeg)); place(RotI2B(x.b2c, RotI2B(qi, d)), w[13 + 4 * k], w[14 + 4 * k], Fmt("star %d", e.id));
            }
          }
        };
      }
      auto fn = [&, en, i] { auto& x = X[i]; if (!(Norm(en->GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN")) > 0)) x.blind = true; else if (x.type != kStarS) x.blind = false; c.nontrivial = true; if (!x.blind) x.judge(); x.last = x.read(); x.ticks++; x.fresh = true; for (double d : x.last) c.Hist(d); c.State(Fmt("%s noise%d%d start%d port%d", kName[x.type], x.noise_w, x.noise_r, (int)(x.ticks < 3), (int)(x.port != nullptr))); };
      p.owned.push_back(x.obj); x.obj.reset(); if (x.port) { x.port->SetVoltage_V(5.0); p.owned.push_back(std::make_shared<Recorder>(pre_eff, clk, x.port.get(), fn)); } else p.owned.push_back(std::make_shared<Recorder>(pre_eff, clk, fn));
      x.last = x.read(); if (stats) final.push_back(stats); c.Count(kName[x.type]);
    }
    p.interference = [&] {  // between two sampling instants, and without power, the reading stays
      for (auto& x : X) { if (x.fresh) { x.fresh = false; continue; } auto v = x.read(); bool same = v.size() == x.last.size(); for (size_t j = 0; same && j < v.size(); j++) same = v[j] == x.last[j] || (std::isnan(v[j]) && std::isnan(x.last[j])); c.Probe("held readings"); c.Check(same || x.type == kTeleS, "hold", "%s changed without a sampling instant", x.Who(cp->Time().GetElapsedTime_s()).c_str()); }
    };
  };
  hk.ready = [&](Case& cs) { cp = &cs; };
  hk.before = [&](Case& cs, long step) {
    auto& k = *cs.craft[0]; auto& att = k.Dyn().SetAttitude();
    for (; next < s.ev.size() && s.ev[next].t <= step; next++) {
      auto& e = s.ev[next];
      if (e.kind == "power") { auto& x = X[(size_t)std::abs(e.I(0)) % X.size()]; if (x.port) { x.port->SetVoltage_V(e.A(1)); c.Count(e.A(1) >= 3.3 ? "power on" : "power off"); } }
      if (e.kind == "jump") { Rng q((uint64_t)e.I(0)); att.SetQuaternion_i2b(RandQuat(q)); c.Count("attitude jump"); }
      if (e.kind == "rate") { att.SetAngularVelocity_b_rad_s(Vec(e.A(0), e.A(1), e.A(2))); c.Count("rate jump"); }
      if (e.kind == "point") {
        auto& x = X[(size_t)std::abs(e.I(0)) % X.size()]; V3 d = cs.Global().GetCelestialInformation().GetPositionFromCenter_i_m(kBody[std::abs(e.I(1)) % 3]) - k.Dyn().GetOrbit().GetPosition_i_m(), b = RotB2I(x.b2c, x.sight); d = (1 / Norm(d)) * d;
        if (e.A(2) != 0) { V3 w = cross(d, std::fabs(d[0]) < 0.7 ? Vec(1, 0, 0) : Vec(0, 1, 0)); w = (1 / Norm(w)) * w; d = std::cos(e.A(2)) * d + std::sin(e.A(2)) * w; } else c.Count("exact pointing at a body");
        att.SetQuaternion_i2b(Pointing(d, b, e.A(3))); NearV(c, RotI2B(att.GetQuaternion_i2b(), d), b, 1e-9, "harness", "pointing");
      }
    }
  };
  hk.after = [&](Case& cs, long) { last = cs.Time().GetElapsedTime_s(); };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); { Case cs(hk, false); cs.Initialize(); cs.Main(); for (auto& f : final) f(); } g_clock.active = false; c.sim_time_s = last;
}
Registrar reg{[] { Property p; p.id = "N01"; p.generate = Gen; p.execute = Run; p.quick_runs = 1500; p.thorough_runs = 60000; p.states_measure = "distinct (sensor, noise sources, start-up, power port)"; p.simple = {{"m_comp", 1}, {"m_att", 1}, {"m_orb", 1}, {"stars", -1}, {"shadow", 0}, {"ecc", 1}};
  p.real = "complete simulation case with gyro, magnetometer, star and sun sensors, GNSS receiver, telescope and observers"; p.stub = "SPICE ephemerides are analytic"; p.level_note = "noise bounded by 8 configured deviations and by sample statistics over runs of 100 and more samples"; return p; }()};
}  // namespace
