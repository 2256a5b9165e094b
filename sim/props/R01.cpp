// Orbit propagators in complete missions: several spacecraft start from the same initial state with different propagators, are pushed by the same seeded
// thrust history and are updated at arbitrary, also irregular (stalled host), instants. Oracle: independent long double integration far below the steps of
// the code, two-body elements, Hill's equations and the generated ephemeris table.
#include <cmath>
#include <math_physics/geodesy/geodetic_position.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include "world/mission.hpp"
using namespace sim;
namespace {
typedef long double R;
enum Prop { kRk4, kKepler, kEncke, kRelRk4, kRelStm, kTable, kSgp4 };
const char* kName[] = {"RK4", "KEPLER", "ENCKE", "RELATIVE", "RELATIVE", "TIME_SERIES_FILE", "SGP4"};
struct St { R r[3], v[3]; };
struct Two {
  R fine = 0.004L;
  R mu = 3.986004418e14L; R a[3] = {0, 0, 0};
  void D(const St& s, St& d) const { R n = s.r[0] * s.r[0] + s.r[1] * s.r[1] + s.r[2] * s.r[2], k = mu / (n * sqrtl(n)); for (int i = 0; i < 3; i++) { d.r[i] = s.v[i]; d.v[i] = a[i] - k * s.r[i]; } }
  void Step(St& s, R h) const {
    St k1, k2, k3, k4, t; auto mix = [&](const St& k, R w) { for (int i = 0; i < 3; i++) { t.r[i] = s.r[i] + w * k.r[i]; t.v[i] = s.v[i] + w * k.v[i]; } };
    D(s, k1); mix(k1, h / 2); D(t, k2); mix(k2, h / 2); D(t, k3); mix(k3, h); D(t, k4);
    for (int i = 0; i < 3; i++) { s.r[i] += h / 6 * (k1.r[i] + 2 * k2.r[i] + 2 * k3.r[i] + k4.r[i]); s.v[i] += h / 6 * (k1.v[i] + 2 * k2.v[i] + 2 * k3.v[i] + k4.v[i]); }
  }
  void Fine(St& s, R dt) const {  // truncation far below a millimetre
    while (dt > 0) { R r = sqrtl(s.r[0] * s.r[0] + s.r[1] * s.r[1] + s.r[2] * s.r[2]), h = fine * sqrtl(r * r * r / mu); long n = (long)ceill(dt / h); if (n <= 8) { for (long i = 0; i < n; i++) Step(s, dt / n); return; } for (int i = 0; i < 8; i++) Step(s, h); dt -= 8 * h; }
  }
  void Coarse(St& s, R dt, R h) const { while (dt - h > 1e-6L) { Step(s, h); dt -= h; } Step(s, dt); }
};
St FromElements(R mu, double a, double e, double i, double raan, double argp, R M) {
  R E = M; for (int k = 0; k < 200; k++) { R d = (E - e * sinl(E) - M) / (1 - e * cosl(E)); if (d > 1) d = 1; if (d < -1) d = -1; E -= d; if (fabsl(d) < 1e-18L) break; }
  R n = sqrtl(mu / ((R)a * a * a)), b = a * sqrtl(1 - (R)e * e), x = a * (cosl(E) - e), y = b * sinl(E), f = n / (1 - e * cosl(E)), vx = -a * f * sinl(E), vy = b * f * cosl(E);
  R co = cosl(argp), so = sinl(argp), ci = cosl(i), si = sinl(i), cr = cosl(raan), sr = sinl(raan);
  R P[3] = {cr * co - sr * so * ci, sr * co + cr * so * ci, so * si}, Q[3] = {-cr * so - sr * co * ci, -sr * so + cr * co * ci, co * si}; St s;
  for (int k = 0; k < 3; k++) { s.r[k] = P[k] * x + Q[k] * y; s.v[k] = P[k] * vx + Q[k] * vy; } return s;
}
V3 Rv(const St& s) { return Vec((double)s.r[0], (double)s.r[1], (double)s.r[2]); }
V3 Vv(const St& s) { return Vec((double)s.v[0], (double)s.v[1], (double)s.v[2]); }
St ToSt(const V3& r, const V3& v) { St s; for (int i = 0; i < 3; i++) { s.r[i] = r[i]; s.v[i] = v[i]; } return s; }

Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s;
  double rp = r.Chance(0.6) ? r.Uni(6.78e6, 7.5e6) : r.LogUni(6.8e6, 3e7), e = r.Chance(0.25) ? 0 : r.Chance(0.2) ? r.LogUni(1e-10, 1e-3) : r.Chance(0.5) ? r.Uni(0, 0.1) : r.Uni(0, 0.8), a = rp / (1 - e), mu = 3.986004418e14; if (r.Chance(0.06)) { e = r.Uni(0.8, 0.99); rp = std::min(rp, 9e6); a = rp / (1 - e); }
  double wp = std::sqrt(mu * (1 + e) / rp) / rp, n = std::sqrt(mu / a) / a, per = 2 * M_PI / n;
  s.p["a"] = a; s.p["e"] = e; s.p["inc"] = r.Chance(0.1) ? 0 : r.Chance(0.05) ? M_PI : r.Chance(0.1) ? M_PI / 2 : r.Uni(0, M_PI); s.p["raan"] = r.Chance(0.2) ? 0 : r.Uni(0, 2 * M_PI); s.p["argp"] = r.Chance(0.2) ? 0 : r.Uni(0, 2 * M_PI); s.p["M"] = r.Uni(0, 2 * M_PI);
  s.p["rot"] = r.Pick<double>({0, 1, 2, 2, 2}); s.p["pole"] = r.Chance(0.08) ? r.Sign() : 0; s.p["elements"] = r.Chance(0.4) && s.P("pole") == 0; s.p["epoch_days"] = r.Chance(0.5) ? 0 : r.Uni(-2, 2);
  long steps = r.Int(4, thorough ? 300 : 70); s.p["steps"] = steps;
  double span = per * (r.Chance(0.5) ? r.Uni(0.02, 0.5) : r.Uni(0.5, thorough ? 6 : 2.5)); if (e > 0.8) span = std::min(span, 1200 / wp); double dt = std::max(0.1, span / steps); if (r.Chance(0.5)) { static const double nice[] = {0.1, 0.5, 1, 2, 5, 10, 30, 60, 120, 300}; for (double x : nice) if (x >= dt) { dt = x; break; } }
  span = dt * steps; s.p["dt"] = dt; s.p["k"] = r.Chance(0.5) ? 1 : (double)r.Int(1, 6); s.p["ka"] = r.Chance(0.7) ? 1 : (double)r.Int(1, 5);
  double hmax = std::min(120.0, 0.09 / wp), h = r.Chance(0.3) ? dt : r.Chance(0.5) ? dt * r.Uni(0.02, 3) : r.LogUni(0.05, 120); if (h > hmax) h = hmax * r.Uni(0.2, 1); h = std::min(std::max(h, span / 15000), dt * s.P("k", 1)); s.p["h"] = h;
  s.p["speed"] = r.Chance(0.2) ? dt * r.Uni(0.5, 10) : 0; s.p["year"] = r.Int(2015, 2030); s.p["day"] = r.Int(1, 28); s.p["sec"] = r.Chance(0.5) ? 0 : r.Uni(0, 59);
  int m = (int)r.Int(2, 5); s.p["n"] = m; s.p["undefined"] = r.Chance(0.1); int chief = r.Pick<int>({kRk4, kRk4, kEncke, kKepler});
  for (int i = 0; i < m; i++) {
    int p = i == 0 ? chief : r.Pick<int>({kRk4, kKepler, kEncke, kEncke, kRelRk4, kRelStm, kTable, kTable, kSgp4}); auto K = [&](const char* k) { return Fmt("s%d.%s", i, k); };
    s.p[K("prop")] = p; s.p[K("tol")] = r.LogUni(1e-8, 1e-2); s.p[K("mass")] = r.LogUni(1, 1000); s.p[K("att")] = (double)r.Int(1, 1000000000); s.p[K("spin")] = r.Chance(0.4) ? r.LogUni(1e-4, 0.05) : 0;
    s.p[K("points")] = (double)r.Int(1, 10); s.p[K("trig")] = r.Chance(0.3); s.p[K("rows")] = (double)r.Int(6, 60); s.p[K("row0")] = r.Uni(-0.5, 1.2); s.p[K("rowdt")] = r.Uni(0.01, 0.2); s.p[K("uneven")] = r.Chance(0.3);
    for (int j = 0; j < 3; j++) { s.p[K(Fmt("rp%d", j).c_str())] = r.Chance(0.2) ? 0 : r.Sign() * r.LogUni(0.1, 2e4); s.p[K(Fmt("rv%d", j).c_str())] = r.Chance(0.2) ? 0 : r.Sign() * r.LogUni(1e-4, 10); }
    s.p[K("sinc")] = r.Uni(0, 180); s.p[K("sraan")] = r.Uni(0, 360); s.p[K("sM")] = r.Uni(0, 360); s.p[K("sgeo")] = r.Chance(0.15); s.p[K("wgs")] = (double)r.Int(0, 2); s.p[K("seld")] = r.Chance(0.05);
  }
  if (r.Chance(0.65)) { double amax = 15.0 / (span * 1.5); for (long k = r.Int(1, 8); k > 0; k--) { V3 d = RandDir(r); double f = r.Chance(0.2) ? 0 : r.LogUni(1e-7, std::max(1e-6, amax)); s.Add(r.Int(1, steps), "thrust", {f * d[0], f * d[1], f * d[2], (double)r.Int(0, 1)}); } }
  if (s.P("speed") > 0) for (long k = r.Int(0, 3); k > 0; k--) s.Add(r.Int(2, steps), "stall", {r.Chance(0.5) ? r.Uni(0.01, 0.9) : r.Uni(1.1, 3)});
  s.SortEvents(); return s;
}
struct Craftx {
  int prop; double mass; St f, g, init; R a[3]; V3 r0, v0; double tprev = 0; V3 rl, vl, el; bool skip = false; std::vector<std::array<double, 7>> table; int points = 0; bool trig = false; double enc = 0; long ups = 0; bool forced = false; bool circular = false; double p_last = 0, ep = 0;
};
void Run(const Script& s, Ctx& c) {
  int n = (int)s.L("n", 1); double dt = s.P("dt", 1), h = std::min(s.P("h", 1), dt * std::max(1.0, s.P("k", 1))), A = s.P("a", 7e6), E = s.P("e"), k = std::max(1.0, s.P("k", 1)); Settings st(n, 0); st.Quiet(); auto& b = st.base;
  double jd = 2440587.5, wp = std::sqrt(3.986004418e14 * (1 + E) / (A * (1 - E))) / (A * (1 - E)), vmax = wp * A * (1 - E), steps = s.P("steps", 5);
  { long y = s.L("year", 2020), y2 = y - 1, era = y2 / 400, yoe = y2 - era * 400, doy = 306 + s.L("day", 1) - 1; jd += era * 146097.0 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; jd += 0.5 + s.P("sec") / 86400; }
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/1/%ld 12:00:%.17g", s.L("year", 2020), s.L("day", 1), s.P("sec"))).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", s.P("speed"));
  for (const char* x : {"attitude_update_period_s", "thermal_update_period_s", "component_update_period_s", "log_output_period_s"}) b.Set("TIME", x, dt * (x[0] == 'a' ? std::max(1.0, s.P("ka", 1)) : 1));
  b.Set("TIME", "orbit_update_period_s", dt * k).Set("TIME", "orbit_integral_step_s", h).Set("TIME", "attitude_integral_step_s", std::max(0.01, dt)).Set("TIME", "thermal_integral_step_s", dt);
  Two two; St init = FromElements(two.mu, A, E, s.P("inc"), s.P("raan"), s.P("argp"), (R)s.P("M")); std::vector<Craftx> X(n);
  { const char* rot[] = {"IDLE", "SIMPLE", "FULL"}; b.Set("CELESTIAL_INFORMATION", "rotation_mode(0)", rot[std::min(2l, std::max(0l, s.L("rot", 2)))]); }
  if (s.P("pole") != 0) { R ra = s.P("raan"), v = Norm(Vv(FromElements(two.mu, A, E, 0, 0, 0, 0))); init.r[0] = init.r[1] = init.v[2] = 0; init.r[2] = (R)s.P("pole") * A * (1 - (R)E); init.v[0] = v * cosl(ra); init.v[1] = v * sinl(ra); c.Count("start exactly above a pole"); } double span = dt * steps;
  for (int d = 0; d < n; d++) {
    auto P = [&](const char* q, double def = 0) { return s.P(Fmt("s%d.%s", d, q), def); }; auto& x = X[d]; auto& ini = st.sat[d]; const char* O = "ORBIT"; x.prop = (int)P("prop"); if (x.prop < 0 || x.prop > kSgp4) x.prop = 0; if (d == 0 && x.prop > kEncke) x.prop = 0;
    st.AllDisturbancesOff(d); st.AllNoiseOff(d); st.local[d].Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "DISABLE"); x.mass = P("mass", 100);
    st.structure[d].Set("KINEMATIC_PARAMETERS", "mass_kg", x.mass); Rng r((uint64_t)P("att", 1)); Quat q = RandQuat(r); V3 w = P("spin") * RandDir(r);
    for (int i = 0; i < 4; i++) ini.Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", i), q[i]); ini.Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", w).Vec("ATTITUDE", "initial_torque_b_Nm", V3(0.0)); 
    bool undefined = s.P("undefined") > 0 && x.prop == kRk4; if (undefined) c.Count("undefined propagation mode"); ini.Set(O, "propagate_mode", undefined ? "RUNGE_KUTTA" : kName[x.prop]).Set(O, "error_tolerance", P("tol", 1e-4)); x.enc = P("tol", 1e-4);
    if (s.L("elements") && x.prop <= kEncke) {
      double ep = jd + s.P("epoch_days"); ini.Set(O, "initialize_mode", "ORBITAL_ELEMENTS").Set(O, "semi_major_axis_m", A).Set(O, "eccentricity", E).Set(O, "inclination_rad", s.P("inc")).Set(O, "raan_rad", s.P("raan")).Set(O, "argument_of_perigee_rad", s.P("argp")).Set(O, "epoch_jday", ep);
      x.ep = ep;
    } else { x.init = init; ini.Set(O, "initialize_mode", "POSITION_VELOCITY_I").Vec(O, "initial_position_i_m", Rv(init)).Vec(O, "initial_velocity_i_m_s", Vv(init)); }
    if (x.prop == kRelRk4 || x.prop == kRelStm) {
      ini.Set(O, "relative_orbit_update_method", x.prop == kRelRk4 ? 0.0 : 1.0).Set(O, "reference_satellite_id", 0.0); for (int i = 0; i < 3; i++) { x.r0[i] = P(Fmt("rp%d", i).c_str()); x.v0[i] = P(Fmt("rv%d", i).c_str()); }
      ini.Vec(O, "initial_relative_position_lvlh_m", x.r0).Vec(O, "initial_relative_velocity_lvlh_m_s", x.v0);
    }
    if (x.prop == kTable) {
      x.points = (int)std::min(P("points", 5), P("rows", 10)); x.trig = P("trig") && E < 0.05; double per = 2 * M_PI * std::sqrt(A / 3.986004418e14) * A; Rng rr((uint64_t)P("att", 1) + 7); double row = P("rowdt", 0.1) / wp, t = -P("row0") * row * std::max(1.0, x.points / 2.0); St o = init; if (t < 0) { for (int i = 0; i < 3; i++) o.v[i] = -o.v[i]; two.Fine(o, -t); for (int i = 0; i < 3; i++) o.v[i] = -o.v[i]; } else two.Fine(o, t);
      std::string csv = "ephemeris_time_s,x,y,z,vx,vy,vz\n"; double et0 = (jd - 2451545.0) * 86400;
      for (int i = 0; i < (int)P("rows", 10); i++) { x.table.push_back({t, (double)o.r[0], (double)o.r[1], (double)o.r[2], (double)o.v[0], (double)o.v[1], (double)o.v[2]}); csv += Fmt("%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g\n", et0 + t, (double)o.r[0], (double)o.r[1], (double)o.r[2], (double)o.v[0], (double)o.v[1], (double)o.v[2]); double st2 = row * (P("uneven") ? rr.Uni(0.5, 1) : 1); two.Fine(o, st2); t += st2; }
      WriteFile(Fmt("settings/table%d.csv", d), csv); ini.Set(O, "time_series_file_path", Fmt("settings/table%d.csv", d)).Set(O, "number_of_interpolation", (double)x.points).Set(O, "interpolation_method", x.trig ? 1.0 : 0.0).Set(O, "orbital_period_correction_s", per);
    }
    if (x.prop == kSgp4) { bool geo = P("sgeo") > 0; ini.Set(O, "tle1", "1 25544U 98067A   20076.51604214  .00001717  00000-0  10270-4 0  9005").Set(O, "tle2", Fmt("2 25544 %8.4f %8.4f 0006063  30.9353 %8.4f %11.8f17647", geo ? 0.05 : P("sinc"), P("sraan"), P("sM"), geo ? 1.00270000 : 15.19215282)).Set(O, "wgs_setting", P("wgs")); }
  }
  if (s.P("speed") > 0) { g_clock.active = true; g_clock.wall_ns = 1700000000000000000ll; g_clock.mono_ns = 5000000000ll; }
  s2e::randomization::global_randomization.SetSeed(7); std::vector<V3> F(n, V3(0.0)), acc(n, V3(0.0)); std::vector<Quat> q0(n); size_t ke = 0; Case::Hooks hk; double mu = 3.986004418e14, t_orb = 0; long flags = 0;
  hk.build = [&](Craft& cr, Parts& p) { int id = cr.GetSpacecraftId(); p.force = [&F, id] { return F[id]; }; };
  double flat = std::sin(s.P("inc")) < 1e-3 ? 4e-8 * A * (1 + E) : 0;  // the inclination of an almost equatorial orbit is found with its arc cosine
  double jdq = 50e-6 * vmax;  // resolution of the Julian date
  auto derived = [&](Case& cs, int d, const char* when, bool moved) {
    auto& o = cs.craft[d]->Dyn().GetOrbit(); V3 r = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(), re = o.GetPosition_ecef_m(), ve = o.GetVelocity_ecef_m_s(); Quat q = cs.craft[d]->Dyn().GetAttitude().GetQuaternion_i2b(); double nr = Norm(r), nv = Norm(v);
    c.Check(Finite(r) && Finite(v) && Finite(re) && Finite(ve), "finite", "craft %d (%s) %s: position or velocity is not a number", d, kName[X[d].prop], when);
    if (cs.step > 0) NearV(c, o.GetVelocity_b_m_s(), RotI2B(q, v), 1e-9 * nv, "velocity-b", Fmt("craft %d (%s) %s: body frame velocity", d, kName[X[d].prop], when));
    if (!moved) return;
    auto D = cs.Global().GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef(); V3 wx = Vec(-7.292115e-5 * r[1], 7.292115e-5 * r[0], 0);
    NearV(c, re, D * r, 1e-9 * nr, "position-ecef", Fmt("craft %d (%s) %s: Earth fixed position", d, kName[X[d].prop], when)); NearV(c, ve, D * (v - wx), 1e-9 * nv + 1e-4, "velocity-ecef", Fmt("craft %d (%s) %s: Earth fixed velocity", d, kName[X[d].prop], when));
    auto g = o.GetGeodeticPosition(); double la = g.GetLatitude_rad(), lo = g.GetLongitude_rad(), al = g.GetAltitude_m(); const double f = 3.352797e-3, a = 6378136.6, e2 = f * (2 - f), N = a / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
    NearV(c, Vec((N + al) * std::cos(la) * std::cos(lo), (N + al) * std::cos(la) * std::sin(lo), (N * (1 - e2) + al) * std::sin(la)), re, 0.02, "geodetic", Fmt("craft %d (%s) %s: geodetic position (lat %.12g, lon %.12g, alt %.9g) as Earth fixed position", d, kName[X[d].prop], when, la, lo, al));
    c.Check(std::fabs(la) <= M_PI / 2 + 1e-9, "latitude", "latitude %.9g", la);
    Quat ql = o.CalcQuaternion_i2lvlh(); V3 hh = cross(r, v); NearV(c, RotI2B(ql, r), Vec(nr, 0, 0), 1e-8 * nr, "lvlh", "position in the local frame"); NearV(c, RotI2B(ql, hh), Vec(0, 0, Norm(hh)), 1e-8 * Norm(hh), "lvlh", "angular momentum in the local frame");
  };
  hk.ready = [&](Case& cs) {
    mu = cs.Global().GetCelestialInformation().GetCenterBodyGravityConstant_m3_s2(); two.mu = mu;
    for (int d = 0; d < n; d++) {
      auto& x = X[d]; auto& o = cs.craft[d]->Dyn().GetOrbit(); V3 r = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(); derived(cs, d, "at the start", true); x.rl = r; x.vl = v; x.el = o.GetPosition_ecef_m(); x.f = x.g = ToSt(r, v); q0[d] = cs.craft[d]->Dyn().GetAttitude().GetQuaternion_i2b();
      if (x.prop <= kEncke) {
        if (s.L("elements")) x.init = FromElements(two.mu, A, E, s.P("inc"), s.P("raan"), s.P("argp"), fmodl(sqrtl(two.mu / ((R)A * A * A)) * ((R)jd - (R)x.ep) * 86400, 2 * M_PIl));
        double tp = (x.prop == kKepler || s.L("elements") ? 2.5 * jdq : 0) + 0.05 + 1e-9 * A + flat; NearV(c, r, Rv(x.init), tp, "initial-position", Fmt("craft %d (%s): initial position", d, kName[x.prop])); NearV(c, v, Vv(x.init), 3 * tp * wp + 1e-5, "initial-velocity", Fmt("craft %d (%s): initial velocity", d, kName[x.prop]));
        if (x.prop == kKepler && E > 0.8) x.f = x.init;
      }
      if (x.prop != kRelRk4 && x.prop != kRelStm) {  // the same orbit described in a section of another name
        std::string text = st.sat[d].Text(), file = Fmt("settings/estimator%d.ini", d); size_t at = text.find("[ORBIT]"); if (at == std::string::npos) continue; text.replace(at, 7, "[ESTIMATOR]"); WriteFile(file, text);
        std::unique_ptr<s2e::dynamics::orbit::Orbit> e(s2e::dynamics::orbit::InitOrbit(&cs.Global().GetCelestialInformation(), file, h, cs.Time().GetCurrentTime_jd(), two.mu, "ESTIMATOR"));
        NearV(c, e->GetPosition_i_m(), r, 1e-9 * Norm(r), "section", Fmt("craft %d (%s): position of the same orbit in another section", d, kName[x.prop])); NearV(c, e->GetVelocity_i_m_s(), v, 1e-9 * Norm(v), "section", Fmt("craft %d (%s): velocity of the same orbit in another section", d, kName[x.prop])); c.Probe("orbit of another section");
      }
    }
  };
  hk.before = [&](Case& cs, long step) {
    for (; ke < s.ev.size() && s.ev[ke].t <= step; ke++) { auto& e = s.ev[ke];
      if (e.kind == "stall") { int64_t ns = (int64_t)(e.A(0) * 1e9); g_clock.wall_ns += ns; g_clock.mono_ns += ns; c.Count(e.A(0) > 1 ? "host stall beyond a second" : "short host stall"); }
      if (e.kind == "thrust") { for (int d = 0; d < n; d++) acc[d] = Vec(e.A(0), e.A(1), e.A(2)); c.Count("thrust change"); if (e.I(3)) for (int d = 0; d < n; d++) if (d % 2) acc[d] = V3(0.0); } }
    // the commanded inertial acceleration is held, whatever the attitude
    for (int d = 0; d < n; d++) F[d] = X[d].mass * RotI2B(cs.craft[d]->Dyn().GetAttitude().GetQuaternion_i2b(), acc[d]);
  };
  hk.after = [&](Case& cs, long step) {
    double t = cs.Time().GetElapsedTime_s(), iv = t - t_orb; bool fl = cs.Time().GetOrbitPropagateFlag(); if (fl) { flags++; if (iv > 1.5 * dt * k) c.Count("update interval stretched by a stall"); if (std::fabs(std::remainder(iv, h)) > 1e-6 * h) c.Count("update off the integration grid"); }
    double tq = cs.Time().GetCurrentTime_jd() > 0 ? jdq : jdq;
    for (int d = 0; d < n; d++) {
      auto& x = X[d]; auto& o = cs.craft[d]->Dyn().GetOrbit(); V3 r = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(); const char* nm = kName[x.prop]; std::string at = Fmt("after update at t=%.9g s (interval %.9g, step %.9g)", t, iv, h);
      derived(cs, d, at.c_str(), fl); c.Hist(r[0]); c.Hist(v[1]);
      if (!fl) { bool same = true; for (int i = 0; i < 3; i++) same = same && r[i] == x.rl[i] && v[i] == x.vl[i] && o.GetPosition_ecef_m()[i] == x.el[i]; c.Check(same, "moved-between-updates", "craft %d (%s) moved at t=%.9g although no orbit update was due", d, nm, t); continue; }
      x.ups++; c.State(Fmt("%d %.1f %ld %d", x.prop, std::log10(iv / h), std::min(12l, x.ups), (int)(10 * E)));
      if (x.prop == kRk4 || x.prop == kEncke || x.prop == kKepler) {
        for (int i = 0; i < 3; i++) two.a[i] = x.prop == kKepler ? 0 : acc[d][i]; if (x.prop != kKepler && Norm(acc[d]) > 0) x.forced = true;
        two.fine = x.prop == kKepler && E > 0.8 ? 0.001L : 0.004L; two.Fine(x.f, iv); two.fine = 0.004L; double et = 0, ev = 0; if (x.prop != kKepler) { two.Coarse(x.g, iv, h); et = Norm(Rv(x.g) - Rv(x.f)); ev = Norm(Vv(x.g) - Vv(x.f)); }
        double tol = 0.01 + 1e-11 * A * (1 + t * wp) + 4 * et; if (x.prop == kKepler) tol += 3 * tq + 1e-9 * A + flat; if (x.prop == kEncke) tol += flat + tq * (3 + 4 * std::sqrt((double)x.ups)) + 3e-9 * A * std::sqrt((double)x.ups) * (1 + 0.1 * wp * t);
        double tolv = 2 * (tol - 4 * et) * wp + 4 * ev + 1e-6;
        NearV(c, r, Rv(x.f), tol, Fmt("position-%s", nm), Fmt("craft %d (%s%s) position %s", d, nm, x.forced ? ", accelerated" : "", at.c_str())); NearV(c, v, Vv(x.f), tolv, Fmt("velocity-%s", nm), Fmt("craft %d (%s%s) velocity %s", d, nm, x.forced ? ", accelerated" : "", at.c_str()));
        if (!x.forced) {
          double e1 = dot(v, v) / 2 - mu / Norm(r), e0 = -mu / (2 * A);
          if (!s.L("elements")) { double eg = x.prop == kKepler ? e0 : dot(Vv(x.g), Vv(x.g)) / 2 - mu / Norm(Rv(x.g)); c.Near(e1, e0, 4 * std::fabs(eg - e0) + 2e-9 * mu / A + mu / (A * (1 - E) * A * (1 - E)) * 3 * (tol - 4 * et), "energy", Fmt("craft %d (%s) orbital energy %s", d, nm, at.c_str())); }
        }
        c.Probe(x.forced ? "accelerated orbit compared" : "two-body orbit compared");
      } else if (x.prop == kRelRk4 || x.prop == kRelStm) {
        auto& ch = cs.craft[0]->Dyn().GetOrbit(); V3 R0 = ch.GetPosition_i_m(), V0 = ch.GetVelocity_i_m_s(), hh = cross(R0, V0), ex = (1 / Norm(R0)) * R0, ez = (1 / Norm(hh)) * hh, ey = cross(ez, ex), w = (1 / dot(R0, R0)) * hh, rel = r - R0, rv = v - V0 - cross(w, rel); bool circ = E < 1e-7 && !X[0].forced;
        V3 lr = Vec(dot(rel, ex), dot(rel, ey), dot(rel, ez)), lv = Vec(dot(rv, ex), dot(rv, ey), dot(rv, ez));
        if (circ) {
          double nn = std::sqrt(mu / A) / A, T = t, sn = std::sin(nn * T), cn = std::cos(nn * T); V3 p = x.r0, u = x.v0, pr, pv;
          pr = Vec((4 - 3 * cn) * p[0] + sn / nn * u[0] + 2 / nn * (1 - cn) * u[1], 6 * (sn - nn * T) * p[0] + p[1] - 2 / nn * (1 - cn) * u[0] + (4 * sn - 3 * nn * T) / nn * u[1], cn * p[2] + sn / nn * u[2]);
          pv = Vec(3 * nn * sn * p[0] + cn * u[0] + 2 * sn * u[1], -6 * nn * (1 - cn) * p[0] - 2 * sn * u[0] + (4 * cn - 3) * u[1], -nn * sn * p[2] + cn * u[2]);
          double sc = Norm(p) + Norm(u) / nn, rel_err = 1e-6 + 5e-7 * nn * T + 5 * std::fabs(Norm(R0) / A - 1) * (1 + nn * T), hn = nn * std::min(h, iv + 0.0); if (X[0].prop == kKepler || X[0].prop == kEncke) rel_err += 1e-6; double tol = 0.02 + sc * (1 + nn * T) * (rel_err + (x.prop == kRelRk4 ? 0.3 * hn * hn * hn * hn * (1 + nn * T) : 0));
          NearV(c, lr, pr, tol, "relative-position", Fmt("craft %d (RELATIVE %s) position in the local frame of the chief %s", d, x.prop == kRelRk4 ? "RK4" : "STM", at.c_str())); NearV(c, lv, pv, tol * nn * 2 + 1e-5, "relative-velocity", Fmt("craft %d (RELATIVE %s) velocity in the local frame of the chief %s", d, x.prop == kRelRk4 ? "RK4" : "STM", at.c_str())); c.Probe("relative orbit compared");
        }
      } else if (x.prop == kTable) {
        size_t i = 0, m = x.table.size(); V3 wr, wv;
        while (i < m && x.table[i][0] < t) i++;
        auto row = [&](size_t j, V3& a, V3& bb) { a = Vec(x.table[j][1], x.table[j][2], x.table[j][3]); bb = Vec(x.table[j][4], x.table[j][5], x.table[j][6]); };
        double edge = 1e-4; bool near0 = t < x.table[0][0] + edge, nearN = t > x.table[m - 1][0] - edge;
        if (near0 || nearN) { row(near0 ? 0 : m - 1, wr, wv); double tol = 3 * jdq + 1; if (x.points == 1 && 0) tol += 0; NearV(c, r, wr, tol, "table-outside", Fmt("craft %d (TIME_SERIES_FILE, %d points) position outside the table %s", d, x.points, at.c_str())); NearV(c, v, wv, tol * wp * 2, "table-outside", Fmt("craft %d velocity outside the table %s", d, at.c_str())); c.Count(near0 ? "time before the table" : "time after the table"); }
        else {
          double hmax = 0; for (size_t j = 0; j + 1 < m; j++) hmax = std::max(hmax, x.table[j + 1][0] - x.table[j][0]); double z = wp * hmax * (1 + 2 * E), tol; int q = x.trig && x.points % 2 == 0 ? x.points - 1 : x.points;
          R tt = t - x.table[i > 0 ? i - 1 : 0][0]; St o; for (int j = 0; j < 3; j++) { o.r[j] = x.table[i > 0 ? i - 1 : 0][j + 1]; o.v[j] = x.table[i > 0 ? i - 1 : 0][j + 4]; } for (R& aa : two.a) aa = 0; two.Fine(o, tt); wr = Rv(o); wv = Vv(o);
          tol = 3 * jdq + 0.02 + A * (1 + E) * 3 * std::pow(z, std::max(1, q)) * (x.trig ? 3 + 30 * E : 1) * (1 + 30 * E);
          double exact = 1e9; for (auto& rw : x.table) exact = std::min(exact, std::fabs(rw[0] - t)); if (exact < 1e-6 && q > 1) { tol = 3 * jdq + 1; c.Count("update at a table entry"); }
          NearV(c, r, wr, tol, "table-position", Fmt("craft %d (TIME_SERIES_FILE, %d points, %s, %zu rows) position %s, %.6g s from the nearest row", d, x.points, x.trig ? "trigonometric" : "polynomial", m, at.c_str(), exact)); NearV(c, v, wv, tol * wp * 3 * (1 + 10 * E), "table-velocity", Fmt("craft %d (TIME_SERIES_FILE, %d points, %s) velocity %s", d, x.points, x.trig ? "trigonometric" : "polynomial", at.c_str())); c.Probe("tabulated orbit compared");
        }
      } else if (x.prop == kSgp4 && iv < 200) {
        St o = ToSt(x.rl, x.vl); for (R& aa : two.a) aa = 0; two.Fine(o, iv); NearV(c, r, Rv(o), 0.03 * iv * iv + 2, "sgp4-continuity", Fmt("craft %d (SGP4) position %s extrapolated from the previous one", d, at.c_str())); NearV(c, v, Vv(o), 0.06 * iv + 0.5, "sgp4-continuity", Fmt("craft %d (SGP4) velocity %s extrapolated from the previous one", d, at.c_str()));
      }
      x.rl = r; x.vl = v; x.el = o.GetPosition_ecef_m();
    }
    if (fl) t_orb = t;
  };
  (void)span; Fly(st, hk, true); g_clock.active = false; c.sim_time_s = t_orb; c.nontrivial = flags > 1;
}
Registrar reg{[] { Property p; p.id = "R01"; p.generate = Gen; p.execute = Run; p.quick_runs = 900; p.thorough_runs = 30000; p.states_measure = "distinct (propagator, updates per integration step, update count, eccentricity) combinations";
  p.real = "complete simulation case, spacecraft, all orbit propagators, Earth rotation, geodetic conversion, orbital element and interpolation library, SGP4"; p.stub = "thrust is injected as a component force; ephemerides from the SPICE stand-in; ephemeris table generated by the harness";
  p.level_note = "tolerances: truncation of a fourth order integration with the configured step (measured by the harness' own integration), 40 us resolution of the Julian date for propagators that take it, interpolation order for tables"; return p; }()};
}  // namespace
