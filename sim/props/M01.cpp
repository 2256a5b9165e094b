// Missions around a centre body other than the Earth (Moon, Sun, Mars): the orbit, every disturbance, the rotation of the Moon and the ephemerides are
// recomputed with own formulas; damaged and unusual lunar gravity files are injected; the gravity potential is compared with its own numerical gradient.
#include <SpiceUsr.h>
#include <cmath>
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/orbit/initialize_orbit.hpp>
#include <math_physics/gravity/gravity_potential.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include "world/mission.hpp"
using namespace sim;
namespace {
namespace dy = s2e::dynamics;
enum { kGG = 1, kSrp = 2, kThird = 4, kLunar = 8, kEarthOnly = 16 };
enum { kNone, kMissing, kCut, kGarbage, kRange, kShuffled, kCrLf };
const char* kCenter[] = {"MOON", "SUN", "MARS", "VENUS"}; const double kR[] = {1737.4e3, 696e6, 3396.19e3, 6051.8e3};
const char* kBodies[] = {"EARTH", "MOON", "SUN", "MARS", "VENUS", "JUPITER"};
using Mat = double[3][3];
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; int ce = r.Chance(0.6) ? 0 : (int)r.Int(1, 3); s.p["center"] = ce; s.p["dt"] = r.Pick<double>({0.1, 0.5, 1, 5, 10, 30}) * (ce == 1 ? 20 : 1); s.p["steps"] = r.Int(8, thorough ? 200 : 60); s.p["m_att"] = r.Chance(0.6) ? 1 : (double)r.Int(2, 5); s.p["m_orb"] = r.Chance(0.6) ? 1 : (double)r.Int(2, 5);
  s.p["year"] = r.Int(2000, 2035); s.p["month"] = r.Int(1, 12); s.p["day"] = r.Int(1, 28); s.p["hour"] = r.Int(0, 23); s.p["seed"] = (double)r.Int(1, 1000000000); s.p["rot"] = (double)r.Int(0, 3); s.p["rev"] = (double)r.Int(0, 5); s.p["bodies"] = (double)r.Int(0, 63);
  s.p["fault"] = r.Chance(0.55) ? kNone : (double)r.Int(1, 6); s.p["where"] = r.Uni(); s.p["rows"] = (double)r.Int(2, 12); s.p["field"] = (double)r.Int(1, 1000000000);
  long n = r.Int(1, 2); s.p["n"] = n;
  for (int i = 0; i < n; i++) {
    auto K = [&](const char* k) { return Fmt("s%d.%s", i, k); };
    s.p[K("geo")] = (double)r.Int(1, 1000000000); s.p[K("orb")] = r.Pick<double>({0, 0, 1, 2}); s.p[K("elements")] = r.Chance(0.3); s.p[K("att")] = r.Chance(0.6) ? 0 : 1; s.p[K("dist")] = r.Chance(0.15) ? 16 : r.Chance(0.3) ? 31 : (double)r.Int(0, 31); s.p[K("degree")] = r.Chance(0.15) ? (double)r.Int(0, 1) : (double)r.Int(2, 12);
    s.p[K("third")] = (double)r.Int(0, 63); s.p[K("dup")] = r.Chance(0.2); s.p[K("r")] = r.Chance(0.5) ? r.Uni(1.02, 1.5) : r.LogUni(1.5, 15); s.p[K("polar")] = r.Chance(0.15); s.p[K("m1")] = (double)r.Int(0, 3); s.p[K("m2")] = (double)r.Int(1, 3);
    for (long k = r.Int(0, 3); k > 0; k--) s.Add(r.Int(1, s.L("steps")), "push", {(double)i, r.Gauss(), r.Gauss(), r.Gauss(), r.Gauss() * 1e-4, r.Gauss() * 1e-4, r.Gauss() * 1e-4});
    for (long k = r.Chance(0.2); k > 0; k--) s.Add(r.Int(1, s.L("steps")), "mass", {(double)i, r.LogUni(1, 300)});
  }
  s.SortEvents(); return s;
}
V3 Mul(const Mat& m, const V3& v) { V3 o(0.0); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) o[a] += m[a][b] * v[b]; return o; }
V3 MulT(const Mat& m, const V3& v) { V3 o(0.0); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) o[a] += m[b][a] * v[b]; return o; }
double Gm(const char* b) { SpiceInt id, dim; SpiceBoolean f; SpiceDouble g; bodn2c_c(b, &id, &f); bodvcd_c(id, "GM", 1, &dim, &g); return g * 1e9; }
void Eph(const std::string& b, const std::string& c, double et, V3& p, V3& v) { SpiceDouble st[6], lt; auto bary = [](std::string x) { return x == "MARS" || x == "JUPITER" ? x + "_BARYCENTER" : x; }; spkezr_c(bary(b).c_str(), et, "J2000", "NONE", c.c_str(), st, &lt); p = 1000.0 * Vec(st[0], st[1], st[2]); v = 1000.0 * Vec(st[3], st[4], st[5]); }
V3 Unit(const V3& v) { return (1 / Norm(v)) * v; }
struct Field {  // normalised coefficients; acceleration from the numerical gradient of the potential
  int deg = 0; double R = 0, mu = 0; std::vector<std::vector<double>> C, S;
  double U(const V3& x) const {
    double r = Norm(x), sp = x[2] / r, cp = std::sqrt(x[0] * x[0] + x[1] * x[1]) / r, lam = std::atan2(x[1], x[0]), u = 0; std::vector<std::vector<double>> P(deg + 1, std::vector<double>(deg + 1, 0.0));
    P[0][0] = 1; for (int m = 1; m <= deg; m++) P[m][m] = P[m - 1][m - 1] * (2 * m - 1) * cp;
    for (int m = 0; m <= deg; m++) for (int n = m + 1; n <= deg; n++) P[n][m] = ((2 * n - 1) * sp * P[n - 1][m] - (n > m + 1 ? (n + m - 1) * P[n - 2][m] : 0)) / (n - m);
    for (int n = 2; n <= deg; n++) for (int m = 0; m <= n; m++) { double N = (m ? 2.0 : 1.0) * (2 * n + 1); for (int k = n - m + 1; k <= n + m; k++) N /= k; u += std::pow(R / r, n) * std::sqrt(N) * P[n][m] * (C[n][m] * std::cos(m * lam) + S[n][m] * std::sin(m * lam)); }
    return u * mu / r;
  }
  V3 Acc(const V3& x) const { V3 g(0.0); double h = Norm(x) * 2e-4; for (int i = 0; i < 3; i++) { V3 d(0.0); d[i] = h; g[i] = (8 * (U(x + d) - U(x - d)) - (U(x + 2.0 * d) - U(x - 2.0 * d))) / (12 * h); } return g; }
  double Scale(double r) const { double q = 0; for (int n = 2; n <= deg; n++) for (int m = 0; m <= n; m++) q += (n + 1) * std::pow(R / r, n) * (std::fabs(C[n][m]) + std::fabs(S[n][m])) * std::sqrt(2 * n + 1.0); return q * mu / r / r; }
};
struct Craft1 {
  int mode = 0, dist = 0, orb = 0; Field f; std::vector<std::string> third; V3 gg{0.0}, sf{0.0}, st{0.0}, third_a{0.0}, lunar{0.0}, cf{0.0}, ct{0.0}, push{0.0}, twist{0.0}; double ss = 0, mass = 1; Quat q; V3 tf{0.0}, tt{0.0}, ta{0.0}; bool out = false, free = true; int main = 0;
  V3 bx{0.0}, own_r{0.0}, own_v{0.0}; std::unique_ptr<dy::attitude::AttitudeRk4> att; std::unique_ptr<dy::orbit::Orbit> twin; double own_t = 0;
};
void Light(Craft& k, const V3& dir, double pr, double& scale, V3& F, V3& T) {
  scale = 0; F = T = V3(0.0); V3 s = Unit(dir), cog = k.Struct().GetKinematicsParameters().GetCenterOfGravity_b_m();
  for (auto& u : k.Struct().GetSurfaces()) {
    double A = u.GetArea_m2() * pr; scale += 4 * A; V3 n = u.GetNormal_b(); double cs = std::min(1.0, dot(n, s)); if (cs <= 0) continue; V3 t = s - cs * n; double sn = Norm(t); if (sn > 0) t = (1 / sn) * t;
    double rs = u.GetReflectivity() * u.GetSpecularity(), rd = u.GetReflectivity() - rs; V3 f = -(A * ((1 + rs) * cs * cs + 2.0 / 3 * rd * cs)) * n - (A * (1 - rs) * cs * sn) * t; F += f; T += cross(u.GetPosition_b_m() - cog, f);
  }
}
void Run(const Script& s, Ctx& c) {
  int ce = (int)std::min(3L, std::max(0L, s.L("center"))), n = (int)std::min(4L, std::max(1L, s.L("n", 1))); double dt = s.P("dt", 1), mo = std::max(1L, s.L("m_orb", 1)), ma = std::max(1L, s.L("m_att", 1)); long steps = s.L("steps", 8); Settings st(n, 0); st.Quiet(); auto& b = st.base; const std::string center = kCenter[ce]; double mu = Gm(kCenter[ce]);
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:00:0.0", s.L("year", 2020), s.L("month", 1), s.L("day", 1), s.L("hour"))).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", 0.0);
  b.Set("TIME", "attitude_update_period_s", dt * ma).Set("TIME", "orbit_update_period_s", dt * mo).Set("TIME", "thermal_update_period_s", dt).Set("TIME", "component_update_period_s", dt).Set("TIME", "log_output_period_s", dt).Set("TIME", "orbit_integral_step_s", dt * mo).Set("TIME", "attitude_integral_step_s", std::min(0.5, dt * ma / 10)).Set("TIME", "thermal_integral_step_s", dt);
  b.Set("RANDOMIZE", "rand_seed", Fmt("%ld", s.L("seed", 1)));
  std::vector<std::string> sel; for (int k = 0; k < 6; k++) if (k < 3 || kBodies[k] == center || ((s.L("bodies") >> k) & 1)) sel.push_back(kBodies[k]); std::rotate(sel.begin(), sel.begin() + s.L("rev") % sel.size(), sel.end());
  const char* CI = "CELESTIAL_INFORMATION"; const char* rots[] = {"IDLE", "SIMPLE", "IAU_MOON", "UNKNOWN"}; int rot = (int)(s.L("rot") & 3); b.Set(CI, "center_object", center).Set(CI, "number_of_selected_body", (double)sel.size());
  for (size_t k = 0; k < sel.size(); k++) b.Set(CI, Fmt("selected_body_name(%zu)", k), sel[k]).Set(CI, Fmt("rotation_mode(%zu)", k), sel[k] == "MOON" ? rots[rot] : sel[k] == "EARTH" ? "SIMPLE" : "IDLE");
  // gravity file
  Rng fr((uint64_t)s.L("field", 1)); int rows_deg = (int)std::min(20L, std::max(2L, s.L("rows", 8))); double Rk = fr.Chance(0.5) ? 1738.0 : fr.Uni(1600, 1900), Mk = fr.Chance(0.5) ? 4902.8001 : fr.Uni(4000, 6000); std::vector<std::vector<double>> C(21, std::vector<double>(21, 0.0)), S = C; std::vector<std::string> rows; bool tiny = fr.Chance(0.3);
  for (int a = 1; a <= rows_deg; a++) for (int m = 0; m <= a; m++) { double q = tiny ? 1e-4 / (a * a) : 1e-2 / a; C[a][m] = a > 1 ? q * fr.Gauss() : 0; S[a][m] = a > 1 && m ? q * fr.Gauss() : 0; rows.push_back(Fmt(fr.Chance(0.5) ? "%5d,%5d,%.15E,%.15E, 1.0E-12, 1.0E-12" : "%d,%d,%.15E,%.15E,0,0", a, m, C[a][m], S[a][m])); }
  int fault = ce == 0 ? (int)s.L("fault") : kNone; double w = std::min(0.999, std::max(0.0, s.P("where"))); size_t bad = (size_t)(w * (rows.size() + 1)); long damaged = 1 << 30;  // number of intact rows in front of the damage
  std::string head = Fmt("%.15E,%.15E,0,0,0", Rk, Mk);
  if (fault == kShuffled) for (size_t k = rows.size(); k-- > 1;) { size_t j = (size_t)fr.Int(0, (long)k); std::swap(rows[k], rows[j]); }
  std::string eol = fault == kCrLf ? "\r\n" : "\n", text = head + eol; size_t cut = std::string::npos;
  for (size_t k = 0; k < rows.size(); k++) {
    std::string row = rows[k]; if (k == bad && (fault == kGarbage || fault == kRange)) { damaged = (long)k; if (fault == kGarbage) { size_t p = 0; for (long f = fr.Int(0, 3); f > 0; f--) p = row.find(',', p) + 1; row = row.substr(0, p) + fr.Pick<std::string>({"abc", "", "-", "nan_", ",", " "}) + row.substr(row.find(',', p)); } else row = fr.Chance(0.5) ? "99,0,1E-3,1E-3,0,0" : fr.Chance(0.5) ? "2,3,1E-3,1E-3,0,0" : "-1,0,1E-3,1E-3,0,0"; }
    if (k == bad && fault == kCut) { damaged = (long)k; cut = text.size(); long f = fr.Int(0, 3); for (size_t p = 0; f > 0; f--) { p = row.find(',', p) + 1; cut = text.size() + p; } }
    text += row + eol;
  }
  if (fault == kCut && bad == rows.size()) { damaged = 0; cut = (size_t)fr.Int(0, 1) * (head.find(',') + 1); }
  if ((fault == kGarbage || fault == kRange) && bad == rows.size()) { damaged = 0; text = "radius,mu,0\n" + text; }
  if (cut != std::string::npos) text.resize(cut);
  std::vector<Craft1> X(n); std::vector<bool> usable(n, true);
  for (int i = 0; i < n; i++) {
    auto P = [&](const char* k, double d = 0) { return s.P(Fmt("s%d.%s", i, k), d); }; auto& x = X[i]; Rng r((uint64_t)P("geo", 1)); st.AllDisturbancesOff(i); st.AllNoiseOff(i); x.dist = (int)P("dist"); x.mode = (int)P("att"); x.orb = (int)P("orb"); auto& d = st.disturb[i]; auto& l = st.local[i];
    d.Enable("GRAVITY_GRADIENT", "calculation", x.dist & kGG).Enable("SOLAR_RADIATION_PRESSURE_DISTURBANCE", "calculation", x.dist & kSrp).Enable("THIRD_BODY_GRAVITY", "calculation", x.dist & kThird).Enable("LUNAR_GRAVITY_FIELD", "calculation", x.dist & kLunar);
    bool eo = x.dist & kEarthOnly; for (const char* e : {"GEOPOTENTIAL", "MAGNETIC_DISTURBANCE", "AIR_DRAG"}) d.Enable(e, "calculation", eo); l.Enable("MAGNETIC_FIELD_ENVIRONMENT", "calculation", eo).Enable("ATMOSPHERE", "calculation", eo).Set("ATMOSPHERE", "model", "STANDARD"); l.Enable("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", true);
    int deg = (int)P("degree", 2); d.Set("LUNAR_GRAVITY_FIELD", "coefficients_file_path", fault == kMissing ? "SETTINGS_DIR_FROM_EXE/environment/gravity_field/nothing.txt" : "SETTINGS_DIR_FROM_EXE/environment/gravity_field/moon.txt").Set("LUNAR_GRAVITY_FIELD", "degree", (double)deg).Set("GEOPOTENTIAL", "coefficients_file_path", "SETTINGS_DIR_FROM_EXE/environment/gravity_field/earth.txt");
    x.f.R = Rk * 1e3; x.f.mu = Mk * 1e9; x.f.C = C; x.f.S = S; long need = (deg + 1) * (deg + 2) / 2 - 1; x.f.deg = deg < 2 || fault == kMissing || need > damaged || need > (long)rows.size() ? 0 : deg; if (fault == kShuffled && deg != rows_deg) x.f.deg = 0;  // rows of a higher degree come first
    if (fault == kShuffled && deg >= 2 && deg < rows_deg) { bool ok = true; for (long k = 0; k < need; k++) ok = ok && std::atoi(rows[k].c_str()) <= deg; if (ok) usable[i] = false; }
    long tb = 0; for (size_t k = 0; k < sel.size(); k++) if (sel[k] != center && ((P("third") / (double)(1 << k)) - 2 * std::floor(P("third") / (double)(2 << k))) >= 1) { x.third.push_back(sel[k]); d.Set("THIRD_BODY_GRAVITY", Fmt("third_body_name(%ld)", tb++), sel[k]); if (P("dup")) d.Set("THIRD_BODY_GRAVITY", Fmt("third_body_name(%ld)", tb++), sel[k]); }
    d.Set("THIRD_BODY_GRAVITY", "number_of_third_body", (double)tb);
    // orbit
    double rad = kR[ce] * (ce == 1 ? 20 * std::max(1.02, P("r", 2)) : std::max(1.02, P("r", 2))), e = r.Uni(0, 0.01); V3 u = P("polar") ? Vec(0, 0, 1) : RandDir(r), y = RandDir(r); y = Unit(y - dot(y, u) * u); V3 pos = rad * u, vel = std::sqrt(mu / rad * (1 + e)) * y; auto& a = st.sat[i]; const char *O = "ORBIT", *A = "ATTITUDE", *L = "CONTROLLED_ATTITUDE";
    a.Set(O, "propagate_mode", x.orb == 0 ? "RK4" : x.orb == 1 ? "KEPLER" : "ENCKE").Vec(O, "initial_position_i_m", pos).Vec(O, "initial_velocity_i_m_s", vel).Set(O, "initialize_mode", P("elements") ? "ORBITAL_ELEMENTS" : "POSITION_VELOCITY_I").Set(O, "semi_major_axis_m", rad).Set(O, "eccentricity", std::min(e, 0.005)).Set(O, "inclination_rad", r.Uni(0.1, 3.0)).Set(O, "raan_rad", r.Uni(0, 6.28)).Set(O, "argument_of_perigee_rad", r.Uni(0, 6.28));
    const char* modes[] = {"SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING"}; x.main = (int)P("m1") & 3; int m2 = (x.main + 1 + ((int)P("m2") + 2) % 3) & 3; x.bx = RandDir(r); V3 by = RandDir(r); by = Unit(by - dot(by, x.bx) * x.bx);
    a.Set(A, "propagate_mode", x.mode ? "CONTROLLED" : "RK4").Set(A, "initialize_mode", "MANUAL").Vec(A, "initial_angular_velocity_b_rad_s", r.LogUni(1e-4, 0.05) * RandDir(r)).Vec(A, "initial_torque_b_Nm", Vec(0, 0, 0)); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) a.Set(A, Fmt("initial_quaternion_i2b(%d)", k), q[k]);
    a.Set(L, "main_mode", modes[x.main]).Set(L, "sub_mode", modes[m2]).Vec(L, "main_pointing_direction_b", x.bx).Vec(L, "sub_pointing_direction_b", by);
    auto& su = st.structure[i]; double I[3] = {r.LogUni(0.05, 5), 0, 0}; I[1] = I[0] * r.Uni(0.7, 1.4); I[2] = (I[0] + I[1]) * r.Uni(0.6, 0.95); for (int k = 0; k < 9; k++) su.Set("KINEMATIC_PARAMETERS", Fmt("inertia_tensor_kgm2(%d)", k), k % 4 ? 0.0 : I[k / 4]);
    su.Set("KINEMATIC_PARAMETERS", "mass_kg", r.LogUni(3, 300)).Vec("KINEMATIC_PARAMETERS", "center_of_gravity_b_m", 0.05 * RandDir(r)); long ns = r.Int(0, 5); su.Set("SURFACES", "number_of_surfaces", (double)ns);
    for (long k = 0; k < ns; k++) su.Set("SURFACES", Fmt("area_%ld_m2", k), r.LogUni(0.01, 30)).Vec("SURFACES", Fmt("position_%ld_b_m", k), r.Uni(0, 2) * RandDir(r)).Vec("SURFACES", Fmt("normal_vector_%ld_b", k), RandDir(r)).Set("SURFACES", Fmt("reflectivity_%ld", k), r.Uni()).Set("SURFACES", Fmt("specularity_%ld", k), r.Uni()).Set("SURFACES", Fmt("air_specularity_%ld", k), r.Uni());
  }
  st.Write(); WriteGravityFiles(); WriteFile("settings/environment/gravity_field/moon.txt", text); if (fault) c.Count(Fmt("gravity file: %s", std::vector<const char*>{"", "missing", "cut short", "garbage in a row", "row out of range", "rows shuffled", "CR LF"}[fault]));
  if (ce == 0 && fault && fault != kShuffled && fault != kCrLf) c.AllowExit();
  { // the potential and its derivatives
    Field f; f.R = Rk * 1e3; f.mu = Mk * 1e9; f.C = C; f.S = S; f.deg = rows_deg; s2e::gravity::GravityPotential gp(f.deg, C, S, f.mu, f.R);
    for (int k = 0; k < 2; k++) {
      V3 u = fr.Chance(0.1) ? Vec(0, 0, fr.Sign()) : RandDir(fr), x = f.R * fr.LogUni(1.01, 8) * u; double r = Norm(x), sc = f.Scale(r), h = 2e-4 * r; auto at = Fmt("at %.6g m, degree %d", r, f.deg); c.Probe("gravity potential");
      NearV(c, gp.CalcAcceleration_xcxf_m_s2(x), f.Acc(x), 1e-6 * sc, "field", "acceleration of the gravity field " + at); auto J = gp.CalcPartialDerivative_xcxf_s2(x); double tr = 0;
      for (int q = 0; q < 3; q++) { V3 d(0.0); d[q] = h; V3 g = (1 / (12 * h)) * (8.0 * (gp.CalcAcceleration_xcxf_m_s2(x + d) - gp.CalcAcceleration_xcxf_m_s2(x - d)) - (gp.CalcAcceleration_xcxf_m_s2(x + 2.0 * d) - gp.CalcAcceleration_xcxf_m_s2(x - 2.0 * d))); for (int p = 0; p < 3; p++) c.Near(J[p][q], g[p], 1e-6 * sc * (f.deg + 2) / r, "field-derivative", Fmt("derivative %d,%d of the gravity acceleration %s", p, q, at.c_str())); tr += J[q][q]; }
      c.Near(tr, 0, 1e-9 * sc * (f.deg + 2) / r, "field-derivative", "trace of the gravity gradient " + at);
    }
  }
  int pos = 0; Case* cp = nullptr; double last = 0; Case::Hooks hk;
  hk.build = [&](Craft& k, Parts& p) {
    int i = pos++; auto* t = &X[i]; Craft* kp = &k; p.force = [=] { t->cf = t->push; return t->cf; }; p.torque = [=] { t->ct = t->twist; return t->ct; };
    p.interference = [=, &c, &cp, &usable] {
      if (t->out) return;
      Craft& k = *kp; auto& env = k.Env(); auto& time = cp->Time(); bool fo = time.GetOrbitPropagateFlag(), fa = time.GetAttitudePropagateFlag(); auto& O = k.Dyn().GetOrbit(); Quat q = k.Dyn().GetAttitude().GetQuaternion_i2b(); t->q = q; auto& kin = k.Struct().GetKinematicsParameters(); t->mass = kin.GetMass_kg(); V3 r = O.GetPosition_i_m(); double et = time.GetCurrentEphemerisTime(); int D = t->dist; auto& gi = cp->Global().GetCelestialInformation();
      auto at = Fmt("of craft %d around %s at %.9g s (%s%s)", i, center.c_str(), time.GetElapsedTime_s(), fo ? "orbit " : "", fa ? "attitude" : ""); V3 rs, vs; Eph("SUN", center, et, rs, vs);
      // Moon-fixed frame
      Mat M = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
      if (rot == 1) {
        V3 m, v; Eph("MOON", "EARTH", et, m, v); V3 ex = -1.0 * Unit(m), ez = Unit(cross(m, v)), ey = cross(ez, ex); const double as = M_PI / 180 / 3600, ax = 0.285 * as, ay = 78.580 * as, az = 67.573 * as;
        V3 e[3] = {ex, ey, ez}, y1 = std::cos(ax) * e[1] + std::sin(ax) * e[2], z1 = std::cos(ax) * e[2] - std::sin(ax) * e[1], x2 = std::cos(ay) * ex - std::sin(ay) * z1, z2 = std::cos(ay) * z1 + std::sin(ay) * ex, x3 = std::cos(az) * x2 + std::sin(az) * y1, y3 = std::cos(az) * y1 - std::sin(az) * x2; for (int b2 = 0; b2 < 3; b2++) { M[0][b2] = x3[b2]; M[1][b2] = y3[b2]; M[2][b2] = z2[b2]; }
      } else if (rot == 2) { SpiceDouble x6[6][6]; sxform_c("J2000", "IAU_MOON", et, x6); for (int a = 0; a < 3; a++) for (int b2 = 0; b2 < 3; b2++) M[a][b2] = x6[a][b2]; }
      auto G = gi.GetMoonRotation().GetDcmJ2000ToMcmf(); c.Probe("moon-fixed frame"); for (int a = 0; a < 3; a++) for (int b2 = 0; b2 < 3; b2++) c.Near(G[a][b2], M[a][b2], 1e-9, "moon-rotation", Fmt("element %d,%d of the rotation to the moon-fixed frame (%s) ", a, b2, rots[rot]) + at);
      for (auto& x : sel) { V3 p2, v2; Eph(x, center, et, p2, v2); NearV(c, gi.GetPositionFromCenter_i_m(x.c_str()), p2, 1e-9 * Norm(p2) + 1e-3, "ephemeris", "position of " + x + " from the centre seen " + at); NearV(c, gi.GetVelocityFromCenter_i_m_s(x.c_str()), v2, 1e-9 * Norm(v2) + 1e-6, "ephemeris", "velocity of " + x + " seen " + at); }
      if (fo || fa) {
        V3 u = RotI2B(q, (-1 / Norm(r)) * r), Iu(0.0); auto I = kin.GetInertiaTensor_b_kgm2(); for (int a = 0; a < 3; a++) for (int b2 = 0; b2 < 3; b2++) Iu[a] += I[a][b2] * u[b2]; t->gg = D & kGG ? (3 * mu / std::pow(Norm(r), 3)) * cross(u, Iu) : V3(0.0);
        if (D & kSrp) Light(k, RotI2B(q, !fo && fa ? env.GetCelestialInformation().GetPositionFromSpacecraft_i_m("SUN") : rs - r), env.GetSolarRadiationPressure().GetPressure_N_m2(), t->ss, t->sf, t->st);
      }
      if (fo) {
        t->third_a = t->lunar = V3(0.0); if (D & kThird) for (auto& x : t->third) { V3 rb, vb; Eph(x, center, et, rb, vb); V3 d = rb - r; double rel = Norm(r) / Norm(rb); V3 own = Gm(x.c_str()) * ((1 / std::pow(Norm(d), 3)) * d - (1 / std::pow(Norm(rb), 3)) * rb); (void)rel; t->third_a += own; }
        if ((D & kLunar) && ce == 0 && t->f.deg >= 2) t->lunar = MulT(M, t->f.Acc(Mul(M, r)));
      }
      double lever = 0, Iv = 0, tsc = 0; for (auto& u : k.Struct().GetSurfaces()) lever = std::max(lever, Norm(u.GetPosition_b_m() - kin.GetCenterOfGravity_b_m())); { auto I = kin.GetInertiaTensor_b_kgm2(); for (int a = 0; a < 3; a++) Iv = std::max(Iv, I[a][a]); } if (D & kThird) for (auto& x : t->third) { V3 rb, vb; Eph(x, center, et, rb, vb); tsc += Gm(x.c_str()) / std::pow(std::min(Norm(rb), Norm(rb - r)), 2); }
      c.Probe("disturbance ledger"); NearV(c, k.Dist().GetTorque_b_Nm(), t->gg + t->st, 1e-7 * (3 * mu / std::pow(Norm(r), 3) * Iv + lever * t->ss) + 1e-300, "disturbance-torque", "total disturbance torque " + at); NearV(c, k.Dist().GetForce_b_N(), t->sf, 1e-7 * t->ss + 1e-300, "disturbance-force", "total disturbance force " + at);
      if (usable[i]) NearV(c, k.Dist().GetAcceleration_i_m_s2(), t->third_a + t->lunar, 1e-11 * tsc + 1e-6 * Norm(t->third_a) + 1e-6 * ((D & kLunar) && ce == 0 ? t->f.Scale(Norm(r)) : 0) + 1e-300, "disturbance-acceleration", "total disturbance acceleration " + at);
      c.Check(Norm(env.GetGeomagneticField().GetGeomagneticField_i_nT()) == 0 && Norm(env.GetGeomagneticField().GetGeomagneticField_b_nT()) == 0, "earth-only", "the geomagnetic field is felt %s", at.c_str()); c.Check(env.GetAtmosphere().GetAirDensity_kg_m3() == 0, "earth-only", "the air density is %g %s", env.GetAtmosphere().GetAirDensity_kg_m3(), at.c_str());
      t->tf = k.Dist().GetForce_b_N(); t->tt = k.Dist().GetTorque_b_Nm(); t->ta = k.Dist().GetAcceleration_i_m_s2(); c.State(Fmt("%d|%d|%d|%d|%d%d|%d", ce, rot, D, t->f.deg, fo, fa, fault));
    };
  };
  hk.ready = [&](Case& cs) {
    cp = &cs; cs.skip_ground = true; auto& gc = cs.Global().GetCelestialInformation(); auto& time = cs.Time(); c.Check(gc.GetCenterBodyName() == center, "center", "the centre body is %s", gc.GetCenterBodyName().c_str()); c.Near(gc.GetCenterBodyGravityConstant_m3_s2(), mu, 1e-9 * mu, "center", "gravity constant of the centre body");
    for (int i = 0; i < n; i++) { auto& k = *cs.craft[i]; auto& t = X[i]; auto& a = k.Dyn().GetAttitude(); auto& o = k.Dyn().GetOrbit(); t.own_r = o.GetPosition_i_m(); t.own_v = o.GetVelocity_i_m_s(); if (t.mode == 0) t.att.reset(new dy::attitude::AttitudeRk4(a.GetAngularVelocity_b_rad_s(), a.GetQuaternion_i2b(), k.Struct().GetKinematicsParameters().GetInertiaTensor_b_kgm2(), V3(0.0), time.GetAttitudeRkStepTime_s(), Fmt("twin%d", i))); t.twin.reset(dy::orbit::InitOrbit(&gc, cs.Conf().spacecraft_file_list_[i], time.GetOrbitRkStepTime_s(), time.GetCurrentTime_jd(), mu, "ORBIT", nullptr)); }
  };
  hk.before = [&](Case& cs, long step) {
    for (auto& t : X) t.push = t.twist = V3(0.0);
    for (auto& e : s.ev) if (e.t == step && e.I(0) < n && e.I(0) >= 0) { auto& t = X[e.I(0)]; if (e.kind == "push") { t.push = Vec(e.A(1), e.A(2), e.A(3)); t.twist = Vec(e.A(4), e.A(5), e.A(6)); c.Count("component force pulse"); } if (e.kind == "mass") { cs.craft[e.I(0)]->Struct().GetToSetKinematicsParameters().SetMass_kg(e.A(1)); c.Count("mass change"); } }
  };
  hk.after = [&](Case& cs, long) {
    auto& time = cs.Time(); double el = time.GetElapsedTime_s(); bool fo = time.GetOrbitPropagateFlag(), fa = time.GetAttitudePropagateFlag(); last = el;
    for (int i = 0; i < n; i++) {
      auto& t = X[i]; auto& k = *cs.craft[i]; auto& A = k.Dyn().GetAttitude(); auto& O = k.Dyn().GetOrbit(); if (t.out) continue; auto at = Fmt("of craft %d around %s at %.9g s", i, center.c_str(), el); V3 T = t.tt + t.ct, F = t.tf + t.cf, acc = t.ta + (1 / t.mass) * RotB2I(t.q, F); c.Probe("dynamics against the ledger");
      if (t.att && fa) { t.att->SetTorque_b_Nm(T); t.att->Propagate(el); }
      if (fo) {
        t.twin->SetAcceleration_i_m_s2(acc); t.twin->Propagate(el, time.GetCurrentTime_jd()); double h = el - t.own_t; if (t.orb == 1 ? true : Norm(acc) == 0) { int N = 60; for (int q = 0; q < N; q++) { auto g = [&](const V3& x) { return (-mu / std::pow(Norm(x), 3)) * x; }; double H = h / N; V3 a1 = g(t.own_r), v1 = t.own_v, v2 = t.own_v + (H / 2) * a1, a2 = g(t.own_r + (H / 2) * v1), v3 = t.own_v + (H / 2) * a2, a3 = g(t.own_r + (H / 2) * v2), v4 = t.own_v + H * a3, a4 = g(t.own_r + H * v3); t.own_r += (H / 6) * (v1 + 2.0 * v2 + 2.0 * v3 + v4); t.own_v += (H / 6) * (a1 + 2.0 * a2 + 2.0 * a3 + a4); } } else t.free = false; t.own_t = el;
      }
      { double R = Norm(t.twin->GetPosition_i_m()); if (!(R > 1.005 * kR[ce]) || R > 1e3 * kR[ce]) { t.out = true; c.Count("spacecraft left the validity of the models"); continue; } }
      double nh = std::sqrt(mu / std::pow(Norm(O.GetPosition_i_m()), 3)) * dt * mo;
      if (t.free && fo) { c.Probe("two-body motion"); double tol = Norm(t.own_r) * (1e-9 + 3 * (el / (dt * mo) + 1) * std::pow(nh, 5)) + (t.orb ? 1e-4 * Norm(t.own_v) : 0);  // KEPLER and ENCKE work with the Julian date
        NearV(c, O.GetPosition_i_m(), t.own_r, tol, "two-body", "position of undisturbed motion " + at); NearV(c, O.GetVelocity_i_m_s(), t.own_v, tol / Norm(t.own_r) * Norm(t.own_v), "two-body", "velocity of undisturbed motion " + at); }
      if (t.att) {
        double ws = Norm(t.att->GetAngularVelocity_b_rad_s()); if (!(ws * time.GetAttitudeRkStepTime_s() < 0.3)) { t.out = true; continue; }
        NearV(c, A.GetAngularVelocity_b_rad_s(), t.att->GetAngularVelocity_b_rad_s(), 1e-9 * (ws + 1e-3), "torque-applied", "angular velocity " + at); t.att->SetAngularVelocity_b_rad_s(A.GetAngularVelocity_b_rad_s()); t.att->SetQuaternion_i2b(A.GetQuaternion_i2b());
      } else if (fa) {
        double et = time.GetCurrentEphemerisTime(); V3 p2, v2, u(0.0), r = O.GetPosition_i_m(), v = O.GetVelocity_i_m_s(); double rate = 0; if (t.main < 2) { Eph(t.main == 0 ? "SUN" : "EARTH", center, et, p2, v2); u = Unit(p2 - r); rate = (Norm(v) + Norm(v2)) / Norm(p2 - r); if (Norm(p2 - r) < kR[ce]) continue; } else { u = Unit(t.main == 2 ? v : cross(r, v)); rate = t.main == 2 ? 2 * nh / (dt * mo) : 1e-3 * nh / (dt * mo); }
        double slack = t.free || t.main < 2 ? 0 : 0.2 * std::min(1.0, Norm(acc) * dt * mo * 10 / Norm(v)); c.Probe("pointing"); NearV(c, RotI2B(A.GetQuaternion_i2b(), u), t.bx, 1e-7 + 3 * rate * dt * (ma + mo) + slack, "pointing", "main pointing direction " + at);
      }
      NearV(c, O.GetVelocity_i_m_s(), t.twin->GetVelocity_i_m_s(), 1e-10 * Norm(O.GetVelocity_i_m_s()), "force-applied", "velocity (force in the ledger applied once) " + at); NearV(c, O.GetPosition_i_m(), t.twin->GetPosition_i_m(), 1e-12 * Norm(O.GetPosition_i_m()) * (10 + cs.step), "force-applied", "position (force in the ledger applied once) " + at);
      if (fo || fa) NearV(c, O.GetVelocity_b_m_s(), RotI2B(A.GetQuaternion_i2b(), O.GetVelocity_i_m_s()), 1e-9 * Norm(O.GetVelocity_i_m_s()), "body-velocity", "velocity in the body frame " + at);
      Hist(c, O.GetPosition_i_m()); Hist(c, A.GetAngularVelocity_b_rad_s()); c.nontrivial = true;
    }
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); Case cs(hk, false); cs.Initialize(); cs.Main(); g_clock.active = false; c.sim_time_s = last;
}
Registrar reg{[] { Property p; p.id = "M01"; p.generate = Gen; p.execute = Run; p.quick_runs = 2500; p.thorough_runs = 40000; p.states_measure = "distinct (centre body, rotation model of the Moon, disturbances, degree of the field, models updated in the step, damage of the gravity file)"; p.simple = {{"m_att", 1}, {"m_orb", 1}, {"n", 1}, {"fault", 0}};
  p.real = "complete simulation case around other centre bodies: ephemerides, moon rotation, lunar gravity field, third bodies, gravity gradient, radiation pressure, orbit and attitude propagation"; p.stub = "SPICE ephemerides and IAU frame are analytic; synthetic lunar gravity files";
  p.level_note = "disturbances recomputed with own formulas from the ephemerides to 1e-7 (fields 1e-6 of their scale); undisturbed motion against an own integrator with the error bound of the configured step"; return p; }()};
}  // namespace
