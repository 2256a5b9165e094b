// Ground stations in a complete simulation: seeded sites, elevation limits, orbits, antennas and radiation patterns, seen through rising and setting passes,
// attitude jumps, exact pointing, data-rate changes and stations that share or own settings files.
#include <algorithm>
#include <cmath>
#include <components/real/communication/ground_station_calculator.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <sstream>
#include "world/mission.hpp"
using namespace sim;
using namespace s2e::components;
namespace {
const double kDeg = M_PI / 180, kA = 6378137.0, kFlat = 3.352797e-3, kSpin = 7.292115e-5, kMu = 3.986004418e14;
Quat Mul(const Quat& p, const Quat& q) { Quat o; o[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2]; V3 u = Vec(p[0], p[1], p[2]), v = Vec(q[0], q[1], q[2]), x = cross(u, v); for (int i = 0; i < 3; i++) o[i] = p[3] * v[i] + q[3] * u[i] + x[i]; return o; }
Quat Inv(const Quat& q) { Quat o = q; for (int i = 0; i < 3; i++) o[i] = -q[i]; return o; }
Quat Pointing(const V3& d, const V3& e, double roll) {  // vectors are rotated from e to d, frames the other way
  V3 h = e + d; double n = Norm(h); if (n < 1e-6) { V3 k = std::fabs(e[0]) < 0.5 ? Vec(1, 0, 0) : Vec(0, 1, 0); h = cross(e, k); n = Norm(h); } h = (1 / n) * h;  // half turn about h maps e on d
  Quat a; for (int i = 0; i < 3; i++) a[i] = h[i]; a[3] = 0; Quat b; for (int i = 0; i < 3; i++) b[i] = std::sin(roll / 2) * e[i]; b[3] = std::cos(roll / 2); return Mul(a, b);
}
struct Site { double lat, lon, h, limit; V3 ecef, e, n, u; };
Site MakeSite(double lat, double lon, double h, double limit) {
  Site s; s.lat = lat; s.lon = lon; s.h = h; s.limit = limit; double sa = std::sin(lat * kDeg), ca = std::cos(lat * kDeg), so = std::sin(lon * kDeg), co = std::cos(lon * kDeg), ecc = kFlat * (2 - kFlat), N = kA / std::sqrt(1 - ecc * sa * sa);
  s.ecef = Vec((N + h) * ca * co, (N + h) * ca * so, (N * (1 - ecc) + h) * sa); s.u = Vec(ca * co, ca * so, sa); s.e = Vec(-so, co, 0); s.n = cross(s.u, s.e); return s;
}
// one side of a link: gain is a + b.u in the antenna frame, or the constant a
struct Side { bool pattern = false; int grid = 0; double a = 0; V3 b{0.0}; size_t nt = 1, np = 1; double tm = 2 * M_PI, pm = M_PI; std::string file; double Gain(const V3& u) const { return pattern ? a + dot(b, u) : a; }
  void Entries(const V3& u, double& lo, double& hi) const {  // the nearest entry of the table, or the last one at the end of an axis
    lo = hi = a; if (!pattern) return; double dt = tm / nt, dp = pm / np, th = std::acos(std::max(-1.0, std::min(1.0, u[2] / Norm(u)))), ph = std::atan2(u[1], u[0]), sn = std::sin(th), slip = 2e-5 / (std::fabs(sn) + 1e-9) / dp + 0.01; if (ph < 0) { if (pm > 4) ph += 2 * M_PI; else { th = 2 * M_PI - th; ph += M_PI; } }
    if (std::fabs(u[1]) < 1e-4 * Norm(u) || (slip > 0.3 && np > 1)) { double g = Gain(u), w = Norm(b) * 1.2 * (dt + (np > 1 ? dp : 0)) + 1e-3; lo = g - w; hi = g + w; return; }
    lo = 1e9; hi = -1e9; for (int p = -1; p < 2; p += 2) for (int k = -1; k < 2; k += 2) { double i = std::min(nt - 1.0, std::floor(th / dt + 0.5 + 0.01 * p)), j = std::min(np - 1.0, std::floor(ph / dp + 0.5 + slip * k)), x = dt * i, y = dp * j, g = a + dot(b, Vec(std::sin(x) * std::cos(y), std::sin(x) * std::sin(y), std::cos(x))); lo = std::min(lo, g); hi = std::max(hi, g); }
  }
};
Side MakeSide(Rng& r, bool pattern, int grid, double gain, const std::string& file) {
  Side s; s.pattern = pattern; s.grid = grid; s.a = gain; s.file = file; if (!pattern) return s;
  long n = r.Int(24, 90); switch (grid) { case 0: s.nt = 2 * n; s.np = n + (r.Chance(0.5) ? 1 : 0); s.tm = 2 * M_PI; s.pm = M_PI; break; case 1: s.nt = n + (r.Chance(0.5) ? 1 : 0); s.np = 2 * n; s.tm = M_PI; s.pm = 2 * M_PI; break; case 2: s.nt = n; s.np = 1; s.tm = M_PI; s.pm = 2 * M_PI; break; default: s.nt = 2 * n; s.np = 1; s.tm = 2 * M_PI; s.pm = M_PI; break; }
  s.b = r.LogUni(0.5, 15) * RandDir(r); if (s.np == 1) s.b = Vec(0, 0, Norm(s.b) * r.Sign());
  std::string t; t.reserve(s.nt * s.np * 9); for (size_t i = 0; i < s.nt; i++) { double th = s.tm * i / s.nt; for (size_t j = 0; j < s.np; j++) { double ph = s.pm * j / s.np; t += Fmt(j ? ",%.4f" : "%.4f", s.a + dot(s.b, Vec(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)))); } t += "\n"; } WriteFile(file, t); return s;
}
struct Link { bool tx = true, rx = true; double f = 2000, power = 1, feed = 0, point = 0, temp = 200, rate = 1e4; Quat q; Side side; };
Quat Unit() { Quat q; q[0] = q[1] = q[2] = 0; q[3] = 1; return q; }
// the direction that is not used has other values, which must not show
Antenna Direct(const Link& l, int id) { bool up = id >= 9; double ot = up ? 11 : 0, orx = up ? 0 : 11; s2e::math::Vector<5> t; t[0] = l.power; t[1] = l.side.a + ot; t[2] = l.feed - ot; t[3] = l.point + 2 * ot; t[4] = l.rate; s2e::math::Vector<4> q; q[0] = l.side.a + orx; q[1] = l.feed + 3 * orx; q[2] = l.point - orx; q[3] = l.temp; return Antenna(id, l.q, l.tx, l.rx, l.f, t, q); }
void WriteAntenna(const Link& l, int id, const std::string& file) {
  Ini x; std::string S = Fmt("ANTENNA_%d", id); const char* s = S.c_str(); for (int k = 0; k < 4; k++) x.Set(s, Fmt("quaternion_b2c(%d)", k), l.q[k]); x.Set(s, "is_transmitter", l.tx ? "1" : "0").Set(s, "is_receiver", l.rx ? "1" : "0").Set(s, "frequency_MHz", l.f).Set(s, "tx_bitrate_bps", l.rate).Set(s, "tx_output_W", l.power).Set(s, "rx_system_noise_temperature_K", l.temp);
  for (const char* p : {"tx_", "rx_"}) { std::string k = p; if ((*p == 'r') != (id >= 9)) { x.Set(s, k + "gain_dBi", l.side.a + 13).Set(s, k + "loss_feeder_dB", l.feed - 5).Set(s, k + "loss_pointing_dB", l.point + 17).Set(s, k + "antenna_gain_model", l.side.pattern && id % 2 ? "RADIATION_PATTERN_CSV" : "ISOTROPIC").Set(s, k + "antenna_radiation_pattern_file", l.side.pattern && id % 2 ? l.side.file : "none.csv").Set(s, k + "length_theta", (double)(l.side.nt / 2 + 1)).Set(s, k + "length_phi", (double)(l.side.np / 2 + 1)).Set(s, k + "theta_max_rad", l.side.tm / 2).Set(s, k + "phi_max_rad", l.side.pm / 2); continue; } x.Set(s, k + "gain_dBi", l.side.pattern ? 77.0 : l.side.a).Set(s, k + "loss_feeder_dB", l.feed).Set(s, k + "loss_pointing_dB", l.point).Set(s, k + "antenna_gain_model", l.side.pattern ? "RADIATION_PATTERN_CSV" : "ISOTROPIC").Set(s, k + "antenna_radiation_pattern_file", l.side.pattern ? l.side.file : "none.csv").Set(s, k + "length_theta", (double)l.side.nt).Set(s, k + "length_phi", (double)l.side.np).Set(s, k + "theta_max_rad", l.side.tm).Set(s, k + "phi_max_rad", l.side.pm); }
  WriteFile(file, x.Text());
}
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["seed"] = (double)r.Int(1, 2000000000); s.p["geo"] = (double)r.Int(1, 1000000000); s.p["sc"] = r.Chance(0.6) ? 1 : (double)r.Int(2, 3); s.p["gs"] = r.Chance(0.4) ? 1 : (double)r.Int(2, 5); s.p["shared"] = r.Chance(0.2); s.p["rot"] = (double)r.Int(0, 2); s.p["over"] = r.Chance(0.75);
  long steps = r.Int(5, thorough ? 300 : 100); s.p["steps"] = steps; s.p["dt"] = r.Chance(0.2) ? 1 : r.Pick<double>({5, 10, 20, 30, 60, 120}); s.p["div"] = r.Chance(0.7) ? 1 : (double)r.Int(2, 4); s.p["alt"] = r.Chance(0.6) ? r.LogUni(200e3, 2e6) : r.LogUni(2e6, 4e7); s.p["year"] = (double)r.Int(1995, 2045);
  s.p["txmodel"] = r.Chance(0.35) ? 0 : 1; s.p["rxmodel"] = r.Chance(0.35) ? 0 : 1; s.p["txgrid"] = (double)r.Int(0, 3); s.p["rxgrid"] = (double)r.Int(0, 3); s.p["wrong"] = r.Chance(0.06) ? (double)r.Int(1, 3) : 0; s.p["weak"] = r.Chance(0.3);
  long e = r.Int(0, 14); for (long i = 0; i < e; i++) { double k = (double)r.Int(1, steps), w = (double)r.Int(1, 1000000000); switch (r.Int(0, 4)) { case 0: case 1: s.Add(k, "jump", {w}); break; case 2: s.Add(k, "point", {w}); break; case 3: s.Add(k, "aim", {w}); break; default: s.Add(k, "rate", {r.LogUni(1, 1e9), w}); } } s.SortEvents(); return s;
}
void Run(const Script& s, Ctx& c) {
  double dt = std::max(0.1, s.P("dt", 10)); long steps = std::max(1L, s.L("steps", 5)), nc = std::min(4L, std::max(1L, s.L("sc", 1))), ng = std::min(6L, std::max(1L, s.L("gs", 1))), div = std::min(5L, std::max(1L, s.L("div", 1))); Rng r((uint64_t)s.P("geo", 1)); bool shared = s.P("shared") > 0; int rot = (int)std::min(2L, std::max(0L, s.L("rot")));
  Settings st((int)nc, (int)ng); st.Quiet(); auto& b = st.base; for (int i = 0; i < nc; i++) { st.AllDisturbancesOff(i); st.AllNoiseOff(i); }
  int Y = (int)s.P("year", 2020), Mo = (int)r.Int(1, 12), D = (int)r.Int(1, 28), H = (int)r.Int(0, 23), Mi = (int)r.Int(0, 59), Se = (int)r.Int(0, 59); double tick = dt / div;
  b.Set("TIME", "simulation_start_time_utc", Fmt("%d/%d/%d %d:%d:%d", Y, Mo, D, H, Mi, Se)).Set("TIME", "simulation_duration_s", tick * (steps - 0.5)).Set("TIME", "simulation_step_s", tick).Set("TIME", "simulation_speed_setting", 0.0).Set("TIME", "attitude_update_period_s", tick).Set("TIME", "orbit_update_period_s", dt).Set("TIME", "thermal_update_period_s", tick).Set("TIME", "component_update_period_s", tick).Set("TIME", "log_output_period_s", tick * 1000).Set("TIME", "orbit_integral_step_s", dt).Set("TIME", "attitude_integral_step_s", tick).Set("TIME", "thermal_integral_step_s", tick);
  const char* rots[] = {"IDLE", "SIMPLE", "FULL"}; b.Set("CELESTIAL_INFORMATION", "center_object", "EARTH").Set("CELESTIAL_INFORMATION", "rotation_mode(0)", rots[rot]).Set("CELESTIAL_INFORMATION", "selected_body_name(0)", "EARTH");
  // sites
  std::vector<Site> site; for (long i = 0; i < ng; i++) { double lat = r.Chance(0.1) ? 90 * r.Sign() : r.Chance(0.1) ? 0 : std::asin(r.Uni(-1, 1)) / kDeg, lon = r.Chance(0.1) ? 180 * r.Sign() : r.Chance(0.1) ? r.Pick<double>({0, 90, -90, 270, 359.5}) : r.Uni(-180, 180), h = r.Chance(0.2) ? r.Uni(-400, 0) : r.Chance(0.1) ? r.Uni(9e3, 3e4) : r.Uni(0, 5000), lim = r.Chance(0.2) ? 0 : r.Chance(0.15) ? r.Uni(-30, 0) : r.Chance(0.1) ? r.Uni(60, 90) : r.Uni(0, 40); site.push_back(MakeSite(lat, lon, h, lim)); if (std::fabs(lat) == 90) c.Probe("stations at a pole"); }
  for (long i = 0; i < ng; i++) { auto put = [&](Ini& x, long k) { std::string S = Fmt("GROUND_STATION_%ld", k); x.Set(S, "latitude_deg", site[k].lat).Set(S, "longitude_deg", site[k].lon).Set(S, "height_m", site[k].h).Set(S, "elevation_limit_angle_deg", site[k].limit); }; if (shared) { if (i == 0) for (long k = 0; k < ng; k++) put(st.gs[0], k); else b.Del("SIMULATION_SETTINGS", Fmt("ground_station_file(%ld)", i)); } else put(st.gs[i], i); }
  if (shared && ng > 1) c.Probe("stations share a file");
  // orbits that pass over a station at some time
  double jd = 367.0 * Y - std::floor(7 * (Y + std::floor((Mo + 9) / 12.0)) * 0.25) + std::floor(275 * Mo / 9.0) + D + 1721013.5 + ((Se / 60.0 + Mi) / 60.0 + H) / 24.0;
  for (long i = 0; i < nc; i++) {
    auto& S = st.sat[i]; double rad = kA + s.P("alt", 500e3) * r.Uni(1, 1.5), n = std::sqrt(kMu / (rad * rad * rad)); V3 u = RandDir(r); double when = r.Uni(0, 1) * tick * steps; if (s.P("over", 1) > 0) { auto& g = site[r.Int(0, ng - 1)]; double th = rot ? (280.46061837 + 360.98564736629 * (jd + when / 86400 - 2451545)) * kDeg : 0; V3 x = (1 / Norm(g.ecef)) * g.ecef + r.LogUni(1e-4, 0.3) * RandDir(r); x = (1 / Norm(x)) * x; u = Vec(x[0] * std::cos(th) - x[1] * std::sin(th), x[0] * std::sin(th) + x[1] * std::cos(th), x[2]); }
    V3 t = cross(u, RandDir(r)); t = (1 / Norm(t)) * t; V3 p = std::cos(n * when) * u - std::sin(n * when) * t, v = std::sin(n * when) * u + std::cos(n * when) * t; S.Set("ORBIT", "propagate_mode", "KEPLER").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Vec("ORBIT", "initial_position_i_m", rad * p).Vec("ORBIT", "initial_velocity_i_m_s", std::sqrt(kMu / rad) * v).Set("ATTITUDE", "propagate_mode", "RK4").Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", V3(0.0)).Vec("ATTITUDE", "initial_torque_b_Nm", V3(0.0)); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) S.Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", k), q[k]);
  }
  // radio
  std::vector<Link> tx(nc), rx(ng); long wrong = s.L("wrong");
  for (long i = 0; i < nc; i++) { auto& l = tx[i]; l.q = RandQuat(r); l.rx = r.Chance(0.5); l.tx = !(wrong & 1); l.f = r.LogUni(100, 30000); l.power = s.P("weak") > 0 ? r.LogUni(1e-6, 1e-2) : r.LogUni(0.1, 50); l.feed = -r.Uni(0, 5); l.point = -r.Uni(0, 5); l.temp = r.Uni(50, 1000); l.side = MakeSide(r, s.P("txmodel") > 0, (int)s.L("txgrid"), r.Uni(-10, 20), Fmt("tx%ld.csv", i)); WriteAntenna(l, 1 + (int)i, Fmt("tx%ld.ini", i)); }
  for (long i = 0; i < ng; i++) { auto& l = rx[i]; l.q = r.Chance(0.3) ? Unit() : RandQuat(r); l.tx = r.Chance(0.5); l.rx = !(wrong & 2); l.feed = -r.Uni(0, 5); l.point = -r.Uni(0, 5); l.temp = r.LogUni(30, 3000); l.side = MakeSide(r, s.P("rxmodel") > 0, (int)s.L("rxgrid"), r.Uni(0, 45), Fmt("rx%ld.csv", i)); WriteAntenna(l, 11 + (int)i, Fmt("rx%ld.ini", i)); }
  struct Budget { double pol, atm, rain, other, ebn0, hw, code, req, rate; }; std::vector<Budget> bud;
  for (long i = 0; i < ng; i++) { Budget q{-r.Uni(0, 3), -r.Uni(0, 3), -r.Uni(0, 10), -r.Uni(0, 2), r.Uni(8, 14), r.Uni(0, 3), -r.Uni(0, 7), r.Uni(0, 6), r.LogUni(10, 1e8)}; bud.push_back(q); Ini x; const char* S = "GROUND_STATION_CALCULATOR"; x.Set(S, "loss_polarization_dB", q.pol).Set(S, "loss_atmosphere_dB", q.atm).Set(S, "loss_rainfall_dB", q.rain).Set(S, "loss_others_dB", q.other).Set(S, "ebn0_dB", q.ebn0).Set(S, "hardware_deterioration_dB", q.hw).Set(S, "coding_gain_dB", q.code).Set(S, "margin_requirement_dB", q.req).Set(S, "downlink_bitrate_bps", q.rate); WriteFile(Fmt("calc%ld.ini", i), x.Text()); }
  st.Write(); Case::Hooks hk; std::vector<Antenna> at, ar; std::vector<GroundStationCalculator> calc; double now = 0; long passes = 0; std::vector<std::vector<int>> before(nc, std::vector<int>(ng, -1)); std::vector<V3> last(ng, V3(0.0)); std::vector<std::map<std::string, double>> seenlog(ng);
  auto table = [](const std::string& h, const std::string& v) { std::map<std::string, double> m; std::istringstream a(h), q(v); std::string x, y; while (std::getline(a, x, ',') && std::getline(q, y, ',')) m[x] = std::strtod(y.c_str(), nullptr); return m; };
  hk.ready = [&](Case& cs) { c.Check((long)cs.ground.size() == ng, "number", "%zu stations of %ld", cs.ground.size(), ng); for (long i = 0; i < nc; i++) at.push_back(!tx[i].side.pattern && (s.L("geo") + i) % 2 ? Direct(tx[i], 1 + (int)i) : InitAntenna(1 + (int)i, Fmt("tx%ld.ini", i))); for (long i = 0; i < ng; i++) { ar.push_back(!rx[i].side.pattern && (s.L("geo") + i) % 2 ? Direct(rx[i], 11 + (int)i) : InitAntenna(11 + (int)i, Fmt("rx%ld.ini", i))); calc.push_back(InitGsCalculator(Fmt("calc%ld.ini", i))); c.Check(calc[i].GetMaxBitrate_Mbps() == 0, "no-rate", "bit rate before the first pass"); } };
  hk.before = [&](Case& cs, long step) { for (auto& e : s.ev) if (e.kind == "jump" && (long)e.t == step) { Rng q((uint64_t)e.I(0)); cs.craft[q.Int(0, nc - 1)]->Dyn().SetAttitude().SetQuaternion_i2b(RandQuat(q)); c.Count("attitude jump"); } };
  hk.after = [&](Case& cs, long step) {
    now = cs.Time().GetElapsedTime_s(); c.nontrivial = true; bool fresh = cs.Time().GetOrbitPropagateFlag(); auto dcm = cs.craft[0]->Env().GetCelestialInformation().GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef();
    for (auto& e : s.ev) if (e.kind == "rate" && (long)e.t == step) { long g = e.I(1) % ng; bud[g].rate = e.A(0); calc[g].SetDownlinkBitrate_bps(e.A(0)); c.Count("data rate changed"); }
    for (long g = 0; g < ng; g++) {
      auto& gs = *cs.ground[g]; auto& q = site[g]; V3 pe = gs.GetPosition_ecef_m(), pi = gs.GetPosition_i_m(); std::string who = Fmt("station %ld at %.9g s", g, now); c.Near(Norm(pe - q.ecef), 0, 3, "site", "Earth-fixed position of " + who); c.Near(Norm(dcm * pi - pe), 0, 1e-3, "rotation", "inertial position of " + who); c.Near(gs.GetElevationLimitAngle_deg(), q.limit, 1e-9, "limit", "elevation limit of " + who);
      if (step > 1) { double rxy = std::hypot(pi[0], pi[1]); if (rot == 0) c.Check(Norm(pi - last[g]) == 0, "rotation", "%s moves without Earth rotation", who.c_str()); else { V3 l = last[g]; double a = kSpin * tick; V3 w = Vec(l[0] * std::cos(a) - l[1] * std::sin(a), l[0] * std::sin(a) + l[1] * std::cos(a), l[2]); c.Near(Norm(pi - w), 0, 0.2 + (rot == 2 ? 1e-2 * a : 1e-5 * a) * 7e6 + 1e-8 * rxy, "rotation", "motion of " + who); } } last[g] = pi;
      auto L = table(gs.GetLogHeader(), gs.GetLogValue());
      for (long k = 0; k < nc; k++) {
        auto& cr = *cs.craft[k]; auto& orb = cr.Dyn().GetOrbit(); V3 x = orb.GetPosition_ecef_m(); if (fresh && (step > 1 || Norm(x) > 0)) c.Near(Norm(dcm * orb.GetPosition_i_m() - x), 0, 1e-2, "frame", "Earth-fixed position of craft"); V3 d = x - q.ecef; double n = Norm(d), se = dot(d, q.u) / n, sl = std::sin(q.limit * kDeg), m = 6 / n + 1e-9; bool vis = gs.IsVisible((unsigned)k); std::string pair = Fmt("craft %ld from %s", k, who.c_str());
        if (se > sl + m) c.Check(vis, "visible", "%s is up (%.9g > %.9g deg) and not visible", pair.c_str(), std::asin(se) / kDeg, q.limit); else if (se < sl - m) c.Check(!vis, "visible", "%s is down (%.9g < %.9g deg) and visible", pair.c_str(), std::asin(se) / kDeg, q.limit); else c.Probe("too close to the limit");
        auto it = L.find(Fmt("ground_station%ld_sc%ld_visible_flag", g, k)); if (it != L.end()) { c.Check((it->second > 0.5) == vis, "log", "logged flag of %s", pair.c_str()); c.Probe("logged flags"); }
        c.Probe(vis ? "visible samples" : "invisible samples"); if (before[k][g] >= 0 && before[k][g] != (int)vis) passes++; before[k][g] = vis; c.Hist((uint64_t)vis);
        V3 pos = orb.GetPosition_i_m(), los = q.ecef - x; double dist = Norm(los); V3 di = dcm.Transpose() * ((1 / dist) * los);
        auto judge = [&](const Antenna& A, const Link& tl, const Antenna& B, const Link& rl, const char* how) {
          auto& cal = calc[g]; cal.Update(cr, A, gs, B); double rate = cal.GetMaxBitrate_Mbps(), margin = cal.GetReceiveMargin_dB(); auto& u = bud[g]; std::string w = pair + how; c.Hist(margin); auto CL = table(cal.GetLogHeader(), cal.GetLogValue()); for (auto& e : CL) { if (e.first.find("max_bitrate") != std::string::npos) c.Near(e.second, rate, 1e-5 * rate, "log", "logged bit rate"); if (e.first.find("receive_margin") != std::string::npos) c.Near(e.second, margin, 1e-4 * std::fabs(margin) + 1e-6, "log", "logged margin"); }
          c.Check(std::isfinite(rate) && std::isfinite(margin) && rate >= 0, "finite", "bit rate %g, margin %g of %s", rate, margin, w.c_str()); if (!vis) { c.Check(rate == 0 && margin <= -1000, "no-rate", "bit rate %g Mbps, margin %g dB of the invisible %s", rate, margin, w.c_str()); return; } if (!tl.tx || !rl.rx) { c.Check(rate == 0, "no-rate", "bit rate %g without transmitter or receiver, %s", rate, w.c_str()); c.Probe("unusable antennas"); return; }
          if (!fresh) return;  // the craft's position is held between orbit updates while the Earth turns
          V3 ut = RotI2B(Mul(cr.Dyn().GetAttitude().GetQuaternion_i2b(), tl.q), di), enu = Vec(-dot(los, q.e) / dist, -dot(los, q.n) / dist, -dot(los, q.u) / dist), ur = RotI2B(rl.q, enu);
          double tlo, thi, rlo, rhi; tl.side.Entries(ut, tlo, thi); rl.side.Entries(ur, rlo, rhi); double cn0 = 10 * std::log10(tl.power) + tl.feed + tl.point + (tlo + thi) / 2 - 20 * std::log10(4 * M_PI * dist * tl.f * 1e6 / 299792458.0) + u.pol + u.atm + u.rain + u.other + (rlo + rhi) / 2 + rl.feed + rl.point - 10 * std::log10(rl.temp) - 10 * std::log10(1.380649e-23), need = u.ebn0 + u.hw + u.code, tol = 0.02 + (thi - tlo) / 2 + (rhi - rlo) / 2;
          c.Near(margin, cn0 - need - 10 * std::log10(u.rate), tol, "margin", "receive margin of " + w); double best = cn0 - need - u.req; if (rate > 0) c.Near(10 * std::log10(rate * 1e6), best, tol, "rate", "maximum bit rate (dB) of " + w); else c.Check(best < tol, "rate", "no bit rate with %g dB left, %s", best, w.c_str()); if (best < -tol) c.Check(rate == 0, "rate", "bit rate %g Mbps with %g dB missing, %s", rate, -best, w.c_str());
          if (ut[1] < 0) c.Probe("links on the far side of the transmit pattern"); if (rate == 0) c.Probe("links too weak"); else c.Probe("links");
        };
        judge(at[k], tx[k], ar[g], rx[g], "");
        for (auto& e : s.ev) if ((long)e.t == step && vis) { Rng z((uint64_t)e.I(0));
          if (e.kind == "point") { V3 bore = tx[k].side.pattern && z.Chance(0.5) ? RotB2I(tx[k].q, Vec(0, 0, -1)) : RotB2I(tx[k].q, Vec(0, 0, 1)); V3 g2 = cs.ground[g]->GetPosition_i_m() - pos; cr.Dyn().SetAttitude().SetQuaternion_i2b(Pointing((1 / Norm(g2)) * g2, bore, z.Uni(0, 6))); judge(at[k], tx[k], ar[g], rx[g], ", pointed"); c.Count("exact pointing of the transmitter"); }
          if (e.kind == "aim") { Link l = rx[g]; V3 enu = Vec(-dot(los, q.e) / dist, -dot(los, q.n) / dist, -dot(los, q.u) / dist); l.q = Pointing(enu, Vec(0, 0, z.Sign()), z.Uni(0, 6)); WriteAntenna(l, 9, "aim.ini"); Antenna B = InitAntenna(9, "aim.ini"); judge(at[k], tx[k], B, l, ", aimed"); c.Count("exact aiming of the receiver"); } }
        c.State(Fmt("vis%d el%d rot%d tx%d%d rx%d%d", vis, (int)std::floor(std::asin(se) / kDeg / 10), rot, tx[k].side.pattern, tx[k].side.grid, rx[g].side.pattern, rx[g].side.grid));
      }
    }
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); { Case cs(hk, false); cs.Initialize(); cs.Main(); } g_clock.active = false; c.sim_time_s = now; if (passes) c.Probe("rises and sets", (uint64_t)passes);
}
Registrar reg{[] { Property p; p.id = "G02"; p.generate = Gen; p.execute = Run; p.quick_runs = 600; p.thorough_runs = 60000; p.states_measure = "distinct (visibility, 10 deg band of elevation, Earth rotation mode, gain models and grids)"; p.simple = {{"sc", 1}, {"gs", 1}, {"txmodel", 0}, {"rxmodel", 0}, {"wrong", 0}, {"weak", 0}, {"shared", 0}, {"div", 1}};
  p.real = "complete simulation case with ground stations, Earth rotation, orbits, attitude, antennas, radiation patterns and link calculator"; p.stub = "SPICE ephemerides are analytic; radiation patterns are synthetic"; p.level_note = "visibility within 6 m of geometry, link budgets within 0.02 dB, patterns at their nearest entry"; return p; }()};
}  // namespace
