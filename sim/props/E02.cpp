// Local and global environment of complete simulations against an independent model of the geometry, the Earth's rotation, the main magnetic field and the
// air density, for seeded epochs, orbits, update periods, rotation modes and sets of bodies.
#include <SpiceUsr.h>
#include <cmath>
#include <fstream>
#include <math_physics/atmosphere/harris_priester_coefficients.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <sstream>
#include "world/mission.hpp"
using namespace sim;
namespace {
typedef long double R;
const char* kAll[] = {"EARTH", "SUN", "MOON", "VENUS", "MARS", "JUPITER", "MERCURY"};
const char* kAir[] = {"STANDARD", "HARRIS_PRIESTER", "NRLMSISE00", "NRLMSISE00", "NONE"};
const double kDeg = M_PI / 180;
long DaysFromCivil(long y, long m, long d) { long yy = m <= 2 ? y - 1 : y, era = yy / 400, yoe = yy - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
void Civil(long days, long& y, long& m, long& d) { y = 1970 + (long)std::floor(days / 365.2425) - 1; while (DaysFromCivil(y + 1, 1, 1) <= days) y++; m = 1; while (m < 12 && DaysFromCivil(y, m + 1, 1) <= days) m++; d = days - DaysFromCivil(y, m, 1) + 1; }
struct M3 { double a[3][3]; };
M3 Rz(double t) { double c = std::cos(t), s = std::sin(t); return {{{c, s, 0}, {-s, c, 0}, {0, 0, 1}}}; }
M3 Ry(double t) { double c = std::cos(t), s = std::sin(t); return {{{c, 0, -s}, {0, 1, 0}, {s, 0, c}}}; }
M3 Rx(double t) { double c = std::cos(t), s = std::sin(t); return {{{1, 0, 0}, {0, c, s}, {0, -s, c}}}; }
M3 operator*(const M3& p, const M3& q) { M3 o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { o.a[i][j] = 0; for (int k = 0; k < 3; k++) o.a[i][j] += p.a[i][k] * q.a[k][j]; } return o; }
V3 operator*(const M3& p, const V3& v) { V3 o(0.0); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) o[i] += p.a[i][k] * v[k]; return o; }
M3 T(const M3& p) { M3 o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.a[i][j] = p.a[j][i]; return o; }
M3 From(const s2e::math::Matrix<3, 3>& m) { M3 o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.a[i][j] = m[i][j]; return o; }
double Diff(const M3& p, const M3& q) { double d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = std::max(d, std::fabs(p.a[i][j] - q.a[i][j])); return d; }
double Gmst(double jd) { double d = jd - 2451545.0, t = d / 36525; return std::fmod(280.46061837 + 360.98564736629 * d + 0.000387933 * t * t - t * t * t / 38710000, 360.0) * kDeg; }
M3 FullRotation(double jd) {  // IAU 1976 precession, largest nutation terms
  double t = (jd + 64.184 / 86400 - 2451545.0) / 36525, as = kDeg / 3600, ze = (2306.2181 * t + 0.30188 * t * t + 0.017998 * t * t * t) * as, zz = (2306.2181 * t + 1.09468 * t * t + 0.018203 * t * t * t) * as, th = (2004.3109 * t - 0.42665 * t * t - 0.041833 * t * t * t) * as;
  double om = (125.04452 - 1934.136261 * t) * kDeg, L = (280.4665 + 36000.7698 * t) * kDeg, Lm = (218.3165 + 481267.8813 * t) * kDeg, e0 = (23.4392911 - 0.0130042 * t) * kDeg;
  double ms = (357.5291 + 35999.0503 * t) * kDeg, mm = (134.9634 + 477198.8675 * t) * kDeg, dp = (-17.20 * std::sin(om) - 1.32 * std::sin(2 * L) - 0.23 * std::sin(2 * Lm) + 0.21 * std::sin(2 * om) + 0.143 * std::sin(ms) + 0.071 * std::sin(mm) - 0.052 * std::sin(2 * L + ms) - 0.030 * std::sin(2 * Lm + mm) + 0.022 * std::sin(2 * L - ms)) * as, de = (9.20 * std::cos(om) + 0.57 * std::cos(2 * L) + 0.10 * std::cos(2 * Lm) - 0.09 * std::cos(2 * om)) * as;
  return Rz(Gmst(jd) + dp * std::cos(e0 + de)) * (Rx(-(e0 + de)) * (Rz(-dp) * Rx(e0))) * (Rz(-zz) * (Ry(th) * Rz(-ze)));
}
struct Igrf {
  std::vector<double> years; double c[14][14][2][30] = {}; int cols = 0;
  bool Load(const std::string& f) {
    std::ifstream in(f); std::string line; if (!std::getline(in, line)) return false; int maxn; double y1, y2; std::istringstream h(line); h >> maxn >> cols >> y1 >> y2; std::getline(in, line); for (int i = 0; i < cols - 1; i++) years.push_back(1900 + 5 * i);
    while (std::getline(in, line)) { std::istringstream l(line); char k; int n, m; if (!(l >> k >> n >> m) || n > 13) continue; double v; for (int i = 0; i < cols && l >> v; i++) c[n][m][k == 'h'][i] = v; }
    return cols > 3;
  }
  R V(const R* x, double year) const {
    R r = sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), ct = x[2] / r, sq = sqrtl(x[0] * x[0] + x[1] * x[1]), stt = sq / r, lam = atan2l(x[1], x[0]), a = 6371200.0L, u = 0, P[15][15] = {};
    P[0][0] = 1; for (int n = 1; n <= 13; n++) for (int m = 0; m <= n; m++) P[n][m] = n == m ? (n == 1 ? stt : stt * sqrtl(1 - 0.5L / n)) * P[n - 1][n - 1] : ((2 * n - 1) * ct * P[n - 1][m] - (n > m + 1 ? sqrtl((R)(n - 1) * (n - 1) - (R)m * m) * P[n - 2][m] : 0)) / sqrtl((R)n * n - (R)m * m);
    int k = (int)std::floor((year - 1900) / 5); k = std::max(0, std::min(k, (int)years.size() - 1)); bool sv = k == (int)years.size() - 1; R w = year - years[k];
    auto co = [&](int n, int m, int h) { return sv ? c[n][m][h][k] + w * c[n][m][h][k + 1] : c[n][m][h][k] + w / 5 * (c[n][m][h][k + 1] - c[n][m][h][k]); };
    for (int n = 1; n <= 13; n++) for (int m = 0; m <= n; m++) u += powl(a / r, n + 1) * P[n][m] * (co(n, m, 0) * cosl(m * lam) + co(n, m, 1) * sinl(m * lam));
    return u * a;
  }
  V3 B(const V3& p, double year) const { V3 b(0.0); R h = (R)Norm(p) * 1e-4L; for (int i = 0; i < 3; i++) { auto at = [&](R s) { R x[3] = {p[0], p[1], p[2]}; x[i] += s * h; return V(x, year); }; b[i] = -(double)((8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)); } return b; }
};
double Harris(double alt_km, double cos_psi) {
  auto& lo = s2e::atmosphere::harris_priester_min_density_table; auto& hi = s2e::atmosphere::harris_priester_max_density_table; if (alt_km <= 100 || alt_km >= 1000) return -1;
  auto val = [&](const std::map<double, double>& t) { auto b = t.upper_bound(alt_km), a = std::prev(b); double w = (alt_km - a->first) / (b->first - a->first); return std::exp(std::log(a->second) * (1 - w) + std::log(b->second) * w); };
  double m = val(lo), M = val(hi), ch2 = 0.5 + cos_psi / 2; return 1e-12 * (m + (M - m) * ch2 * ch2);
}
double Standard(double km) {  // base densities of the exponential model (Vallado table 8-4)
  static const double h[] = {0, 25, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 180, 200, 250, 300, 350, 400, 450, 500, 600, 700, 800, 900, 1000}, d[] = {1.225, 3.899e-2, 1.774e-2, 3.972e-3, 1.057e-3, 3.206e-4, 8.770e-5, 1.905e-5, 3.396e-6, 5.297e-7, 9.661e-8, 2.438e-8, 8.484e-9, 3.845e-9, 2.070e-9, 5.464e-10, 2.789e-10, 7.248e-11, 2.418e-11, 9.518e-12, 3.725e-12, 1.585e-12, 6.967e-13, 1.454e-13, 3.614e-14, 1.170e-14, 5.245e-15, 3.019e-15};
  int n = sizeof h / sizeof *h, k = 0; if (km >= 1000) return 3.019e-15 * std::exp(-(km - 1000) / 268); while (k + 2 < n && h[k + 1] <= km) k++; double w = (km - h[k]) / (h[k + 1] - h[k]); return std::exp(std::log(d[k]) * (1 - w) + std::log(d[k + 1]) * w);
}
double Thermosphere(double alt, double lst, double f107, double f107a, double ap, double lat_deg, double doy) {  // the analytic stand-in of NRLMSISE-00
  return 3.6e-10 * std::exp(-(alt - 200.0) / 60.0) * (1 + 0.2 * std::cos((lst - 14.0) / 12.0 * M_PI)) * (1 + (f107a - 150.0) / 500.0 + (f107 - 150.0) / 1000.0) * (1 + ap / 400.0) * (1 + 0.05 * std::sin(lat_deg * kDeg)) * (1 + 0.03 * std::cos(2 * M_PI * doy / 365));
}
double F107(long day) { return 70 + (day % 97) + (day % 7) * 0.1; }
double F81(long day) { return 80 + (day % 61) + (day % 3) * 0.1; }
double Ap(long day) { return 2 + day % 41; }

Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["year"] = r.Chance(0.5) ? r.Int(2015, 2026) : r.Int(1950, 2032); s.p["day"] = r.Chance(0.25) ? r.Pick<double>({0, 0, 1, 30, 58, 59, 60, 363, 364, 364}) : (double)r.Int(0, 364); s.p["sec"] = r.Chance(0.3) ? 86400 - r.Uni(1, 100) : std::floor(r.Uni(0, 86399)); s.p["seed"] = (double)r.Int(1, 1000000000);
  s.p["center"] = r.Pick<double>({0, 0, 0, 0, 0, 0, 2, 1}); s.p["dt"] = r.Pick<double>({0.1, 0.5, 1, 10, 60}); s.p["steps"] = r.Int(4, thorough ? 100 : 25); s.p["m_orb"] = r.Chance(0.5) ? 1 : (double)r.Int(2, 5); s.p["m_att"] = r.Chance(0.5) ? 1 : (double)r.Int(2, 5);
  s.p["rot"] = (double)r.Int(0, 2); s.p["moonrot"] = (double)r.Int(0, 2); s.p["bodies"] = (double)r.Int(0, 127); long n = r.Int(1, 3); s.p["n"] = n; s.p["monthly"] = r.Chance(0.3); s.p["air"] = (double)r.Int(0, 4);
  for (int i = 0; i < n; i++) {
    auto K = [&](const char* k) { return Fmt("s%d.%s", i, k); };
    s.p[K("same")] = i > 0 && r.Chance(0.5); s.p[K("geo")] = (double)r.Int(1, 1000000000); s.p[K("alt")] = r.Chance(0.7) ? r.Uni(90, 1100) : r.Chance(0.2) ? 1000 : r.Chance(0.5) ? r.Uni(30, 150) : r.LogUni(300, 40000); s.p[K("pole")] = r.Chance(0.08) ? r.Sign() : 0; s.p[K("equator")] = r.Chance(0.1);
    s.p[K("spin")] = r.Chance(0.2) ? 0 : r.LogUni(1e-4, 0.2); s.p[K("mag")] = r.Chance(0.85); s.p[K("magnoise")] = r.Chance(0.25); s.p[K("atm")] = r.Chance(0.85); s.p[K("manual")] = r.Chance(0.5); s.p[K("f107")] = r.Uni(60, 250); s.p[K("f107a")] = r.Uni(60, 250); s.p[K("ap")] = r.Uni(0, 60);
    if (s.P(K("magnoise")) > 0) { double size = r.LogUni(30, 3000); if (r.Chance(0.6)) { s.p[K("mwalk")] = size; s.p[K("mlimit")] = size * r.LogUni(0.02, 3); } if (s.P(K("mwalk")) == 0 || r.Chance(0.3)) s.p[K("mwhite")] = r.LogUni(30, 3000); }
    if (r.Chance(0.2)) s.p[K("airnoise")] = r.LogUni(0.01, 0.1);
    if ((s.P(K("magnoise")) > 0 || s.P(K("airnoise")) > 0) && r.Chance(0.3)) s.p["steps"] = r.Int(100, 200);
  }
  return s;
}
struct Wander {  // a noisy quantity against its noiseless value: bounded, of the configured spread, different in every direction
  double walk = 0, limit = 0, white = 0; int dim = 3; long n = 0; double chi = 0, away = 0, axis[3] = {}, stir[3] = {}, cov[3][3] = {}; V3 last{0.0}; bool moved = false, gap = false;
  void Add(Ctx& c, const V3& d, double err, const char* key, const std::string& what) {
    for (int j = 0; j < dim; j++) c.Check(std::fabs(d[j]) <= (walk > 0 ? limit + 0.8 * walk : 0) + 8 * white + err, key, "noise of %s is %.4g in axis %d (walk %.3g, limit %.3g, white noise %.3g)", what.c_str(), d[j], j, walk, limit, white);
    V3 s = d - last; if (n && white == 0 && !gap) for (int j = 0; j < dim; j++) c.Check(std::fabs(s[j]) <= 0.8 * walk + 2 * err, key, "noise of %s jumps by %.4g in axis %d (walk %.3g)", what.c_str(), s[j], j, walk);
    if (err > 0.2 * (0.05 * walk + white)) { gap = true; return; } last = d; if (gap && n) { gap = false; return; } gap = false; away += dot(d, d); if (n && Norm(s) > 2 * err) moved = true; for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) cov[i][j] += s[i] * s[j]; if (white > 0) chi += dot(d, d) / (white * white); if (n) for (int j = 0; j < dim; j++) { if (white > 0) axis[j] += d[j] * d[j] / (white * white); if (walk > 0) stir[j] += s[j] * s[j] / (walk * walk); } n++;
  }
  void End(Ctx& c, const char* key, const std::string& what) const {
    if (n < 4) return; c.Probe("noise of the environment"); c.Check(moved || (dim == 1 && n < 40), key, "noise of %s does not change in %ld updates (walk %.3g, white noise %.3g)", what.c_str(), n, walk, white);
    if (dim == 3 && n >= 12) { double t = cov[0][0] + cov[1][1] + cov[2][2], d = cov[0][0] * (cov[1][1] * cov[2][2] - cov[1][2] * cov[2][1]) - cov[0][1] * (cov[1][0] * cov[2][2] - cov[1][2] * cov[2][0]) + cov[0][2] * (cov[1][0] * cov[2][1] - cov[1][1] * cov[2][0]); c.Check(d > 1e-6 * t * t * t / 27, key, "noise of %s is the same in different axes", what.c_str()); }
    if (walk == 0 && n >= 8) { double k = dim * (double)n, z = (std::cbrt(chi / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); c.Check(std::fabs(z) < 6.5, key, "noise of %s: spread %.4g times the configured one in %ld updates", what.c_str(), std::sqrt(chi / k), n); }
    if (walk == 0 && n >= 20) for (int j = 0; j < dim; j++) { double k = n - 1.0, z = (std::cbrt(axis[j] / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); c.Check(std::fabs(z) < 6.5, key, "noise of %s: spread %.4g times the configured one in axis %d in %ld updates", what.c_str(), std::sqrt(axis[j] / k), j, n); }
    if (white == 0 && walk > 0 && dim == 3 && n >= 60) { double st = 0; for (int j = 0; j < 3; j++) st += stir[j]; if (limit > 6 * walk * std::sqrt(st / 3 / (n - 1))) c.Probe("wandering noise"); c.Check(limit <= 6 * walk * std::sqrt(st / 3 / (n - 1)) || away / n > 2.5 * walk * walk * st / (n - 1), key, "noise of %s stays within %.4g nT although it may wander up to %.4g nT with steps of %.4g nT", what.c_str(), std::sqrt(away / n), limit, walk * std::sqrt(st / (n - 1))); }
    if (white == 0 && walk > 0 && n >= 50) for (int j = 0; j < dim; j++) { double q = std::sqrt(stir[j] / (n - 1)); c.Check(q > 0.03 && q < 0.3, key, "noise of %s moves by %.4g of the configured walk in axis %d per update", what.c_str(), q, j); }
  }
};
struct Cx { Wander wm, wa; bool mag, magnoise, atm, manual; double f107, f107a, ap, fall = 0; V3 bi{0.0}, bb{0.0}, pos; std::vector<V3> pi, pb; double rho = 0, alt = 0; bool has = false, hasb = false, hasr = false; std::vector<std::pair<double, double>> curve; };
void Run(const Script& s, Ctx& c) {
  int n = (int)std::min(6L, std::max(1L, s.L("n", 1))); double dt = s.P("dt", 1); long steps = s.L("steps", 6); Settings st(n, 0); st.Quiet(); auto& b = st.base; std::string center = kAll[std::min(6L, s.L("center"))];
  long Y = s.L("year", 2020), M, D; long day0 = DaysFromCivil(Y, 1, 1) + s.L("day"); Civil(day0, Y, M, D); double sec = s.P("sec"); long sod = (long)sec;
  double alow = 1e9; for (int i = 0; i < n; i++) alow = std::min(alow, s.P(Fmt("s%d.alt", i), 500)); if (alow < 150) dt = std::min(dt, 1.0);
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:%ld:%.17g", Y, M, D, sod / 3600, sod / 60 % 60, sec - sod / 60 * 60)).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", 0.0);
  double mo = std::max(1L, s.L("m_orb", 1)), ma = std::max(1L, s.L("m_att", 1));
  b.Set("TIME", "attitude_update_period_s", dt * ma).Set("TIME", "orbit_update_period_s", dt * mo).Set("TIME", "thermal_update_period_s", dt).Set("TIME", "component_update_period_s", dt).Set("TIME", "log_output_period_s", dt).Set("TIME", "orbit_integral_step_s", dt).Set("TIME", "attitude_integral_step_s", std::min(dt, 0.5)).Set("TIME", "thermal_integral_step_s", dt);
  std::vector<std::string> sel = {"EARTH", "SUN", "MOON"}; for (int k = 3; k < 7; k++) if ((s.L("bodies") >> k) & 1 || center == kAll[k]) sel.push_back(kAll[k]);
  if (s.L("bodies") & 1) std::reverse(sel.begin(), sel.end()); if (s.L("bodies") & 2) std::rotate(sel.begin(), sel.begin() + 1, sel.end());
  const char *CI = "CELESTIAL_INFORMATION", *rots[] = {"IDLE", "SIMPLE", "FULL"}, *mrots[] = {"IDLE", "SIMPLE", "IAU_MOON"}; int rot = (int)std::min(2L, s.L("rot")), mrot = (int)std::min(2L, s.L("moonrot")); b.Set(CI, "center_object", center).Set(CI, "number_of_selected_body", (double)sel.size());
  for (size_t k = 0; k < sel.size(); k++) b.Set(CI, Fmt("selected_body_name(%zu)", k), sel[k]).Set(CI, Fmt("rotation_mode(%zu)", k), sel[k] == "EARTH" ? rots[rot] : sel[k] == "MOON" ? mrots[mrot] : "DISABLE");
  if (center == "EARTH" && alow < 150) c.Count("low altitude");
  std::vector<Cx> X(n); int air = (int)std::min(4L, s.L("air")); bool table = false; V3 pos0(0.0), vel0(0.0); double body_r = center == "EARTH" ? 6.3782e6 : center == "MOON" ? 1.7374e6 : 7e8, mu = center == "EARTH" ? 3.986e14 : center == "MOON" ? 4.9028e12 : 1.327e20;
  for (int i = 0; i < n; i++) {
    auto P = [&](const char* k, double d = 0) { return s.P(Fmt("s%d.%s", i, k), d); }; auto& x = X[i]; st.AllDisturbancesOff(i); st.AllNoiseOff(i); Rng r((uint64_t)P("geo", 1)); auto& l = st.local[i]; auto& S = st.sat[i];
    st.disturb[i].Set("LUNAR_GRAVITY_FIELD", "coefficients_file_path", "SETTINGS_DIR_FROM_EXE/environment/gravity_field/moon.txt").Set("LUNAR_GRAVITY_FIELD", "degree", 2.0).Set("GEOPOTENTIAL", "degree", 0.0);
    x.mag = P("mag", 1) > 0; x.magnoise = P("magnoise") > 0; x.atm = P("atm", 1) > 0; x.manual = P("manual", 1) > 0; x.f107 = P("f107", 150); x.f107a = P("f107a", 150); x.ap = P("ap", 3); if (air == 2 && !x.manual && x.atm) table = true;
    if (Y < 2015 || Y > 2040) x.manual = true;
    const char *G = "MAGNETIC_FIELD_ENVIRONMENT", *A = "ATMOSPHERE"; if (x.magnoise) { x.wm.walk = P("mwalk"); x.wm.limit = P("mlimit"); x.wm.white = P("mwhite"); if (x.wm.walk == 0 && x.wm.white == 0) x.magnoise = false; } x.wa.white = P("airnoise"); x.wa.dim = 1;
    l.Enable(G, "calculation", x.mag).Set(G, "magnetic_field_random_walk_standard_deviation_nT", x.wm.walk).Set(G, "magnetic_field_random_walk_limit_nT", x.wm.limit).Set(G, "magnetic_field_white_noise_standard_deviation_nT", x.wm.white);
    l.Enable(A, "calculation", x.atm).Set(A, "model", kAir[air]).Enable(A, "is_manual_parameter_used", x.manual).Set(A, "manual_daily_f107", x.f107).Set(A, "manual_average_f107", x.f107a).Set(A, "manual_ap", x.ap).Set(A, "air_density_standard_deviation", x.wa.white).Set(A, "nrlmsise00_table_file", "SETTINGS_DIR_FROM_EXE/environment/space_weather/sw.txt");
    double rad = body_r + 1e3 * P("alt", 500); V3 u = RandDir(r); if (P("pole") != 0) { u = Vec(0, 0, P("pole")); c.Count("start exactly above a pole"); } if (P("equator") && P("pole") == 0) { u[2] = 0; u = (1 / Norm(u)) * u; rad = 6378136.6 + 1e3 * P("alt", 500); }
    V3 pos = rad * u, t = cross(u, RandDir(r)), vel = (std::sqrt(mu / rad) * r.Uni(1, 1.2) / Norm(t)) * t; if (P("same") && i > 0) { pos = pos0; vel = vel0; c.Count("spacecraft at the same place"); } if (i == 0) { pos0 = pos; vel0 = vel; }
    S.Set("ORBIT", "propagate_mode", "RK4").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Vec("ORBIT", "initial_position_i_m", pos).Vec("ORBIT", "initial_velocity_i_m_s", vel); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) S.Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", k), q[k]);
    S.Set("ATTITUDE", "propagate_mode", "RK4").Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", P("spin") * RandDir(r)).Vec("ATTITUDE", "initial_torque_b_Nm", V3(0.0));
  }
  st.Write(); WriteGravityFiles(); long upd = s.P("monthly") ? day0 - 120 : day0 + 40; bool is_monthly = s.P("monthly") > 0;
  {
    long uy, um, ud; Civil(upd, uy, um, ud); static const char* mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; std::string t = Fmt("DATATYPE CssiSpaceWeather\nUPDATED %4ld %s %02ld 06:10:09 UTC\nBEGIN OBSERVED\n", uy, mn[um - 1], ud);
    for (long d = day0 - 400; d < day0 + 400; d++) { long y, m, dd; Civil(d, y, m, dd); if (d > upd + 46 && dd != 1) continue; std::string row(131, ' '); auto put = [&](int p, const std::string& v) { row.replace(p, v.size(), v); }; put(0, Fmt("%04ld %02ld %02ld", y, m, dd)); put(80, Fmt("%3.0f", Ap(d))); put(93, Fmt("%5.1f", F107(d))); put(101, Fmt("%5.1f", F81(d))); put(107, Fmt("%5.1f", 1.0)); put(113, Fmt("%5.1f", 2.0)); put(119, Fmt("%5.1f", 3.0)); put(125, Fmt("%5.1f", 4.0)); t += row + "\n"; }
    WriteFile("settings/environment/space_weather/sw.txt", t + "END OBSERVED\n");
  }
  Igrf ig; c.Check(ig.Load("settings/environment/magnetic_field/igrf13.coef"), "setup", "coefficients of the magnetic field cannot be read by the check");
  Case* cp = nullptr; double last = 0; int count = 0; Case::Hooks hk; double t0 = day0 + 0.0;
  auto year_of = [&](double t) { double tod = sec + t; long d = day0 + (long)std::floor(tod / 86400), y, m, dd; Civil(d, y, m, dd); double s1 = DaysFromCivil(y, 1, 1), s2 = DaysFromCivil(y + 1, 1, 1); return y + (t0 + tod / 86400 - s1) / (s2 - s1); };
  hk.build = [&](Craft& k, Parts& p) {
    int i = count++; Craft* kp = &k; if (i >= n) return;
    p.interference = [&, kp, i] {
      auto& x = X[i]; auto& k = *kp; auto& env = k.Env(); auto& ci = env.GetCelestialInformation(); auto& gi = cp->Global().GetCelestialInformation(); double t = cp->Time().GetElapsedTime_s(), jd = cp->Time().GetCurrentTime_jd(); bool fo = cp->Time().GetOrbitPropagateFlag(), fa = cp->Time().GetAttitudePropagateFlag(); auto at = Fmt("of craft %d at %.9g s", i, t);
      V3 r = k.Dyn().GetOrbit().GetPosition_i_m(), v = k.Dyn().GetOrbit().GetVelocity_i_m_s(), w = k.Dyn().GetAttitude().GetAngularVelocity_b_rad_s(); Quat q = k.Dyn().GetAttitude().GetQuaternion_i2b(); x.pos = r;
      // bodies
      std::vector<V3> pi, pb; for (auto& e : sel) { pi.push_back(ci.GetPositionFromSpacecraft_i_m(e.c_str())); pb.push_back(ci.GetPositionFromSpacecraft_b_m(e.c_str())); }
      if (fa || fo) {
        c.Probe("bodies"); std::string log = ci.GetLogValue(), head = ci.GetLogHeader(); std::vector<double> val; std::vector<std::string> col; { std::istringstream l(log); std::string e; while (std::getline(l, e, ',')) val.push_back(std::strtod(e.c_str(), nullptr)); std::istringstream h(head); while (std::getline(h, e, ',')) col.push_back(e); }
        for (size_t e = 0; e < sel.size(); e++) {
          V3 g = gi.GetPositionFromCenter_i_m(sel[e].c_str()), gv = gi.GetVelocityFromCenter_i_m_s(sel[e].c_str()), want = g - r; double N = Norm(g) + Norm(r); auto what = sel[e] + " " + at;
          NearV(c, pi[e], want, 1e-12 * N + 1e-3, "body-position", "position of " + what); NearV(c, pb[e], RotI2B(q, want), 1e-9 * Norm(want) + 1e-12 * N, "body-frame", "position in the body frame of " + what);
          if (sel[e] == center) { NearV(c, ci.GetCenterBodyPositionFromSpacecraft_i_m(), -1.0 * r, 1e-3 + 1e-12 * N, "body-position", "position of the central body " + at); NearV(c, ci.GetCenterBodyPositionFromSpacecraft_b_m(), RotI2B(q, -1.0 * r), 1e-9 * N, "body-frame", "position in the body frame of the central body " + at); NearV(c, g, V3(0.0), 1e-6, "center", "position of the central body in its own frame"); }
          std::string lower; for (char ch : sel[e]) lower += (char)tolower(ch); V3 bv = RotI2B(q, gv - v) - cross(w, RotI2B(q, want));
          for (size_t k2 = 0; k2 + 2 < val.size() && k2 + 2 < col.size(); k2++) if (col[k2].find(lower + "_velocity_from_spacecraft") != std::string::npos) { NearV(c, Vec(val[k2], val[k2 + 1], val[k2 + 2]), bv, 1e-5 * (Norm(gv - v) + Norm(w) * Norm(want)), "body-velocity", "velocity in the body frame of " + what); c.Probe("velocity of bodies"); break; }
        }
      } else if (x.has) for (size_t e = 0; e < sel.size(); e++) c.Check(Norm(pi[e] - x.pi[e]) == 0 && Norm(pb[e] - x.pb[e]) == 0, "stale", "position of %s %s changed without an update of orbit or attitude", sel[e].c_str(), at.c_str());
      x.pi = pi; x.pb = pb; x.has = true;
      // magnetic field
      V3 bi = env.GetGeomagneticField().GetGeomagneticField_i_nT(), bb = env.GetGeomagneticField().GetGeomagneticField_b_nT();
      if (!x.mag || center != "EARTH") c.Check(Norm(bi) == 0 && Norm(bb) == 0, "disabled", "disabled magnetic field %s is %.9g nT", at.c_str(), Norm(bi));
      else if (fa) {
        M3 back = T(Rz(Gmst(jd))); V3 ecef = k.Dyn().GetOrbit().GetPosition_ecef_m(), want = back * ig.B(ecef, year_of(t)); c.Probe("magnetic field"); c.nontrivial = true; double B = Norm(want);
        if (x.magnoise) x.wm.Add(c, bi - want, 3e-5 * B + 0.3, "magnetic-noise", "the magnetic field " + at); else NearV(c, bi, want, 3e-5 * B + 0.3, "magnetic-field", Fmt("magnetic field (%.4f) ", year_of(t)) + at); NearV(c, bb, RotI2B(q, bi), 1e-9 * (B + Norm(bi)), "magnetic-frame", "magnetic field in the body frame " + at); x.hasb = true; c.Hist(bi[0]);
      } else if (x.hasb) c.Check(Norm(bi - x.bi) == 0 && Norm(bb - x.bb) == 0, "stale", "magnetic field %s changed without an update of the attitude", at.c_str());
      x.bi = bi; x.bb = bb;
      // air
      double rho = env.GetAtmosphere().GetAirDensity_kg_m3(); auto geo = k.Dyn().GetOrbit().GetGeodeticPosition(); double km = geo.GetAltitude_m() / 1e3;
      c.Check(std::isfinite(rho) && rho >= 0, "air-range", "air density %s is %.9g", at.c_str(), rho);
      if (!x.atm || center != "EARTH" || air == 4) c.Check(rho == 0, "disabled", "air density of a disabled model %s is %.9g", at.c_str(), rho);
      else if (fo) {
        c.Probe("air density"); double want = -1, tol = 1e-5; c.Hist(rho); c.State(Fmt("air %d rot %d|%d", air, rot, (int)(km / 100)));
        if (air == 0) { want = Standard(km); tol = 0.03; }
        if (air == 1) { V3 apex = gi.GetPositionFromCenter_i_m("SUN"); apex = (1 / Norm(apex)) * apex; apex = T(Rz(30 * kDeg)) * apex; V3 in = T(From(gi.GetEarthRotation().GetDcmJ2000ToEcef())) * k.Dyn().GetOrbit().GetPosition_ecef_m(); want = Harris(km, dot(apex, in) / Norm(in)); tol = 3e-3; }
        if (air == 2 || air == 3) {
          double tod = sec + t; long d = day0 + (long)std::floor(tod / 86400), y, m, dd; Civil(d, y, m, dd); double sd = tod - (d - day0) * 86400.0, fr = sd / 86400, f = x.f107, fa2 = x.f107a, ap = x.ap; bool ok = sd > 2 && sd < 86398; if (!x.manual && t > dt * (steps - 0.5)) ok = false;
          if (!x.manual) { long key = d; bool far = d > upd + 62; if (far) key = DaysFromCivil(y, m, 1); if (!far && d > upd + 38) ok = false; if (far && key > day0 + 399) ok = false; f = F107(key); fa2 = F81(key); ap = Ap(key); if (is_monthly) c.Count("space weather predicted by month"); else c.Count("space weather by day"); }
          (void)fr; double lon = geo.GetLongitude_rad() / kDeg; if (ok) want = Thermosphere(km, sd / 3600 + lon / 15, f, fa2, ap, geo.GetLatitude_rad() / kDeg, DaysFromCivil(y, m, dd) - DaysFromCivil(y, 1, 1) + 1); tol = 2e-3;
        }
        if (want > 0 && x.wa.white > 0) x.wa.Add(c, Vec(rho / want - 1, 0, 0), tol, "air-noise", "the air density " + at); else if (want >= 0) c.Near(rho, want, tol * want, "air-density", Fmt("%s air density at %.9g km ", kAir[air], km) + at); x.hasr = true; if (air == 0 && km > 0 && x.wa.white == 0) x.curve.push_back({km, rho});
      } else if (x.hasr) c.Check(rho == x.rho, "stale", "air density %s changed without an update of the orbit", at.c_str());
      x.rho = rho;
      for (int j = 0; j < i; j++) {  // functions of position and time only
        auto& y = X[j]; if (Norm(y.pos - x.pos) != 0) continue; c.Probe("same place");
        if (x.mag && y.mag && !x.magnoise && !y.magnoise) c.Check(Norm(x.bi - y.bi) <= 1e-9 * Norm(x.bi), "same-place", "crafts %d and %d at the same place have different magnetic fields at %.9g s", j, i, t);
        if (x.atm && y.atm && air < 2 && x.wa.white == 0 && y.wa.white == 0) c.Check(x.rho == y.rho, "same-place", "crafts %d and %d at the same place have different air densities at %.9g s", j, i, t);
      }
    };
  };
  hk.ready = [&](Case& cs) { cp = &cs; };
  hk.after = [&](Case& cs, long) {
    last = cs.Time().GetElapsedTime_s(); double jd = cs.Time().GetCurrentTime_jd(), jw = 2440587.5 + day0 + (sec + last) / 86400; auto& gi = cs.Global().GetCelestialInformation(); c.Near(jd, jw, 3e-9 + 1e-9, "time", "Julian day");
    c.Near(std::remainder(cs.Time().GetCurrentSiderealTime() - Gmst(jd), 2 * M_PI), 0, 1e-6, "sidereal", "sidereal time");
    M3 E = From(gi.GetEarthRotation().GetDcmJ2000ToEcef()), I = Rz(0); c.Check(Diff(E * T(E), I) < 1e-12, "orthonormal", "the rotation of the Earth is not orthonormal (%.3g)", Diff(E * T(E), I)); V3 ex = Vec(E.a[0][0], E.a[0][1], E.a[0][2]), ey = Vec(E.a[1][0], E.a[1][1], E.a[1][2]), ez = Vec(E.a[2][0], E.a[2][1], E.a[2][2]); c.Check(dot(cross(ex, ey), ez) > 0.9, "proper", "the rotation of the Earth is a reflection");
    if (rot == 0) c.Check(Diff(E, I) == 0, "idle", "idle Earth rotates"); else { M3 W = rot == 1 ? Rz(Gmst(jd)) : FullRotation(jd); double d = Diff(E, W); c.Check(d < (rot == 1 ? 1e-6 : 7e-7), "earth-rotation", "rotation of the Earth (%s) at JD %.9g differs by %.3g rad", rots[rot], jd, d); }
    M3 L = From(gi.GetMoonRotation().GetDcmJ2000ToMcmf()); c.Check(Diff(L * T(L), I) < 1e-12, "orthonormal", "the rotation of the Moon is not orthonormal"); V3 lx = Vec(L.a[0][0], L.a[0][1], L.a[0][2]), ly = Vec(L.a[1][0], L.a[1][1], L.a[1][2]), lz = Vec(L.a[2][0], L.a[2][1], L.a[2][2]); c.Check(dot(cross(lx, ly), lz) > 0.9, "proper", "the rotation of the Moon is a reflection");
    if (mrot == 0) c.Check(Diff(L, I) == 0, "idle", "idle Moon rotates");
    if (mrot == 1) { V3 m = gi.GetPositionFromCenter_i_m("MOON") - gi.GetPositionFromCenter_i_m("EARTH"), mv = gi.GetVelocityFromCenter_i_m_s("MOON") - gi.GetVelocityFromCenter_i_m_s("EARTH"), h = cross(m, mv); c.Check(dot(lx, m) / Norm(m) < -1 + 1e-6 && dot(lz, h) / Norm(h) > 1 - 1e-6, "moon-rotation", "the Moon does not face the Earth: %.9g, %.9g", dot(lx, m) / Norm(m), dot(lz, h) / Norm(h)); }
    if (mrot == 2) { double x[6][6]; sxform_c("J2000", "IAU_MOON", (jw - 2451545.0) * 86400 + 69.184, x); M3 W; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) W.a[i][j] = x[i][j]; c.Check(Diff(L, W) < 1e-8, "moon-rotation", "rotation of the Moon differs by %.3g from the ephemeris", Diff(L, W)); }
    for (auto& e : sel) { SpiceDouble q[6], lt; spkezr_c(e.c_str(), (jw - 2451545.0) * 86400 + 69.184, "J2000", "NONE", center.c_str(), q, &lt); V3 p = 1e3 * Vec(q[0], q[1], q[2]), v = 1e3 * Vec(q[3], q[4], q[5]); NearV(c, gi.GetPositionFromCenter_i_m(e.c_str()), p, 10 + 1e-9 * Norm(p), "ephemeris", "position of " + e); NearV(c, gi.GetVelocityFromCenter_i_m_s(e.c_str()), v, 1e-3 + 1e-7 * Norm(v), "ephemeris", "velocity of " + e); }
    for (int i = 0; i < n; i++) { auto& O = cs.craft[i]->Dyn().GetOrbit(); if (cs.Time().GetOrbitPropagateFlag()) { NearV(c, O.GetPosition_ecef_m(), E * O.GetPosition_i_m(), 1e-3 + 1e-12 * Norm(O.GetPosition_i_m()), "earth-fixed", "Earth fixed position"); NearV(c, T(E) * O.GetPosition_ecef_m(), O.GetPosition_i_m(), 1e-3 + 1e-12 * Norm(O.GetPosition_i_m()), "round-trip", "Earth fixed position back in the inertial frame"); } }
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); Case cs(hk, false); cs.Initialize(); hk.after(cs, 0); c.Probe("before the first step"); cs.Main(); g_clock.active = false; c.sim_time_s = last; (void)table; for (int i = 0; i < n; i++) { if (X[i].magnoise) X[i].wm.End(c, "magnetic-noise", Fmt("the magnetic field of craft %d", i)); if (X[i].wa.white > 0) X[i].wa.End(c, "air-noise", Fmt("the air density of craft %d", i)); }
  std::vector<std::pair<double, double>> all; for (auto& x : X) all.insert(all.end(), x.curve.begin(), x.curve.end()); std::sort(all.begin(), all.end());
  for (size_t k = 1; k < all.size(); k++) if (all[k].first > all[k - 1].first + 1.0) c.Check(all[k].second < all[k - 1].second, "air-decreases", "air density grows from %.9g at %.6g km to %.9g at %.6g km", all[k - 1].second, all[k - 1].first, all[k].second, all[k].first);
}
Registrar reg{[] { Property p; p.id = "E02"; p.generate = Gen; p.execute = Run; p.quick_runs = 1200; p.thorough_runs = 40000; p.states_measure = "distinct (air density model, Earth rotation mode, altitude band)"; p.simple = {{"m_orb", 1}, {"m_att", 1}, {"rot", 0}, {"moonrot", 0}, {"bodies", 0}};
  p.real = "complete simulation case: time, celestial information, Earth and Moon rotation, magnetic field, atmosphere, orbit, attitude"; p.stub = "SPICE ephemerides and NRLMSISE-00 are analytic stand-ins"; p.level_note = "magnetic field against an independent synthesis of the coefficient file to 3e-5, Earth rotation to 1e-6 rad (full)"; return p; }()};
}  // namespace
