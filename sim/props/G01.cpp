// Navigation satellites in a complete simulation: seeded synthetic product files of an analytic constellation, with bad records, missing, torn and
// overlapping files, runs that start anywhere and step over epochs, files and the end of the products, and a receiver that has to see what is above it.
#include <algorithm>
#include <cmath>
#include <components/real/aocs/gnss_receiver.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <sstream>
#include "world/mission.hpp"
using namespace sim;
using namespace s2e::components;
namespace {
const double kRe = 6378136.6, kDeg = M_PI / 180, kDay = 86400, kSpin = 7.292115e-5;
bool Leap(long y) { return y % 4 == 0; }  // 1901..2099
long DaysOf(long y, long doy) { long d = doy - 1; for (long k = 1980; k < y; k++) d += Leap(k) ? 366 : 365; return d; }  // days since 1980/1/1
struct Date { long y, doy, m, d; };
Date Civil(long days) { Date o; o.y = 1980; while (days >= (Leap(o.y) ? 366 : 365)) days -= Leap(o.y++) ? 366 : 365; o.doy = days + 1; long len[] = {31, Leap(o.y) ? 29L : 28L, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; o.m = 1; while (days >= len[o.m - 1]) days -= len[o.m++ - 1]; o.d = days + 1; return o; }
struct Sat { std::string id; double a, n, inc, raan, u0, b, c, q; V3 At(double t) const { double u = u0 + n * t, th = raan - kSpin * t, x = a * std::cos(u), y = a * std::sin(u) * std::cos(inc), z = a * std::sin(u) * std::sin(inc); return Vec(x * std::cos(th) - y * std::sin(th), x * std::sin(th) + y * std::cos(th), z); } double Clock_us(double t) const { return b + c * t + q * t * t; } };
struct Epoch { double t; std::vector<int> pos, clk; };  // 1 when the record is usable
struct Recorder : public Component {
  Recorder(int pre, s2e::environment::ClockGenerator* clk, PowerPort* port, std::function<void()> f) : Component(pre, clk, port), on(f) {}
  std::function<void()> on; void MainRoutine(const int) override { on(); }
};
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["seed"] = (double)r.Int(1, 2000000000); s.p["geo"] = (double)r.Int(1, 1000000000); s.p["interval"] = r.Pick<double>({300, 900, 900}); long days = r.Int(1, 4); s.p["days"] = days; s.p["year"] = (double)r.Int(1995, 2040); s.p["doy"] = r.Chance(0.4) ? r.Int(362, 366) : r.Chance(0.2) ? r.Int(57, 61) : (double)r.Int(1, 365);
  double dt = r.Pick<double>({1, 10, 60, 300, 450, 900, 901, 1800, 3600, 7200, 20000}); s.p["dt"] = dt; long steps = r.Int(5, thorough ? 250 : 110); s.p["steps"] = steps; double span = days * kDay;
  s.p["start"] = r.Chance(0.1) ? -std::floor(r.LogUni(1, 2e5)) : r.Chance(0.1) ? std::floor(span + r.Uni(-1000, 90000)) : r.Chance(0.4) ? std::floor(r.Int(0, days) * kDay - dt * r.Uni(0, steps)) : r.Chance(0.3) ? std::floor(r.Int(0, days * 96 - 1)) * 900 : std::floor(r.Uni(0, span));
  s.p["sats"] = r.Chance(0.2) ? r.Int(1, 4) : (double)r.Int(5, 40); s.p["calc"] = r.Chance(0.95); s.p["shuffle"] = r.Chance(0.3); s.p["end24"] = r.Chance(0.2); s.p["velocity"] = r.Chance(0.15); s.p["flags"] = (double)r.Int(0, 3); s.p["pre"] = r.Chance(0.6) ? 1 : (double)r.Int(2, 5);
  s.p["alt"] = r.Chance(0.7) ? r.LogUni(120e3, 2e6) : r.LogUni(2e6, 6e7); s.p["half"] = r.Chance(0.1) ? 180 : r.Uni(5, 120); s.p["cone"] = r.Chance(0.85);
  long e = r.Int(0, 8);
  for (long i = 0; i < e; i++) { double sat = (double)r.Int(0, 39), at = (double)r.Int(0, (long)(span / s.p["interval"])), len = r.Chance(0.5) ? 1 : r.LogUni(1, 60);
    switch (r.Int(0, 8)) { case 8: s.Add(at, "gap", {std::floor(r.Chance(0.5) ? 1 : r.LogUni(1, 30))}); break; case 0: case 1: s.Add(at, "badpos", {sat, std::floor(len)}); break; case 2: s.Add(at, "badclk", {sat, std::floor(len)}); break; case 3: if (r.Chance(0.5)) s.Add(0, "lost", {(double)r.Int(0, days - 1)}); break; case 4: if (r.Chance(0.5)) s.Add(0, "torn", {(double)r.Int(0, days - 1), r.Uni(0, 1)}); break; case 5: s.Add(0, "absent", {(double)r.Int(0, days - 1), sat}); break; default: s.Add(0, "power", {(double)r.Int(1, steps), r.Chance(0.5) ? 0.0 : 5.0}); } }
  long j = r.Int(0, 12); for (long i = 0; i < j; i++) s.Add(0, "jump", {(double)r.Int(1, steps), (double)r.Int(1, 1000000000)}); s.SortEvents(); return s;
}
void Run(const Script& s, Ctx& c) {
  double dt = s.P("dt", 60), D = std::max(60.0, s.P("interval", 900)); long steps = std::max(1L, s.L("steps", 5)), days = std::min(6L, std::max(1L, s.L("days", 1))); Rng r((uint64_t)s.P("geo", 1)); long base = DaysOf(s.L("year", 2020), std::min(365L + Leap(s.L("year", 2020)), std::max(1L, s.L("doy", 1)))); double T0 = s.P("start");
  // constellation
  long ns = std::min(60L, std::max(1L, s.L("sats", 8))); std::vector<Sat> sats; for (long i = 0; i < ns; i++) { Sat q; bool gps = i < 32; q.id = gps ? Fmt("G%02ld", i + 1) : Fmt("E%02ld", i - 31); q.a = gps ? r.Uni(26540e3, 26580e3) : 29600e3; q.n = std::sqrt(3.986004418e14 / (q.a * q.a * q.a)); q.inc = r.Uni(0.9, 1.0); q.raan = r.Uni(0, 6.28); q.u0 = r.Uni(0, 6.28); q.b = r.Sign() * (r.Chance(0.9) ? r.Uni(20, 800) : r.LogUni(1e3, 9e5)); r.Uni(20, 800); q.c = r.Gauss() * 1e-6; q.q = r.Gauss() * 1e-12; sats.push_back(q); }
  // product files
  long per = (long)std::lround(kDay / D); std::vector<std::vector<Epoch>> file(days); std::vector<std::vector<int>> order(days); std::vector<bool> lost(days, false); std::vector<double> keep(days, 2); bool tail = s.P("end24") > 0;
  for (long d = 0; d < days; d++) { for (long i = 0; i < ns; i++) order[d].push_back((int)i); if (s.P("shuffle") > 0) for (long i = ns - 1; i > 0; i--) std::swap(order[d][i], order[d][r.Int(0, i)]); for (long k = 0; k < per + tail; k++) file[d].push_back({d * kDay + k * D, std::vector<int>(ns, 1), std::vector<int>(ns, 1)}); }
  for (auto& e : s.ev) {
    if (e.kind == "lost") { lost[std::min(days - 1, std::max(0L, e.I(0)))] = true; c.Count("lost product file"); } if (e.kind == "torn") { keep[std::min(days - 1, std::max(0L, e.I(0)))] = e.A(1); c.Count("torn product file"); }
    if (e.kind == "gap") { long k0 = std::max(0L, (long)e.t), n = std::max(1L, e.I(0)); for (auto& f : file) f.erase(std::remove_if(f.begin(), f.end(), [&](const Epoch& ep) { long k = std::lround(ep.t / D); return k >= k0 && k < k0 + n; }), f.end()); c.Count("epochs missing in a file"); }
    if (e.kind == "absent" && ns > 1) { auto& o = order[std::min(days - 1, std::max(0L, e.I(0)))]; if (o.size() > 1) { auto it = std::find(o.begin(), o.end(), (int)(e.I(1) % ns)); if (it != o.end()) o.erase(it); c.Count("satellite missing in one file"); } }
    if (e.kind == "badpos" || e.kind == "badclk") { long i = e.I(0) % ns, k0 = (long)e.t, n = std::max(1L, e.I(1)); for (auto& f : file) for (auto& ep : f) { long k = std::lround(ep.t / D); if (k >= k0 && k < k0 + n) (e.kind == "badpos" ? ep.pos : ep.clk)[i] = 0; } c.Count(e.kind == "badpos" ? "bad position records" : "bad clock records"); }
  }
  for (long d = 0; d < days; d++) {
    Date day = Civil(base + d); bool vel = s.P("velocity") > 0; std::string t = Fmt("#d%c%4ld %2ld %2ld %2d %2d %11.8f %7zu %5s %5s %3s %4s\n", vel ? 'V' : 'P', day.y, day.m, day.d, 0, 0, 0.0, file[d].size(), "ORBIT", "WGS84", "FIT", "SIM"); long gd = base + d - 5; t += Fmt("## %4ld %15.8f %14.8f %5ld %15.13f\n", gd / 7, (double)(gd % 7) * kDay, D, 44239 + base + d, 0.0);
    size_t n = order[d].size(), lines = std::max<size_t>(5, (n + 16) / 17); for (int pass = 0; pass < 2; pass++) for (size_t l = 0; l < lines; l++) { t += pass ? "++       " : l == 0 ? Fmt("+  %3zu   ", n) : "+        "; for (size_t k = l * 17; k < l * 17 + 17; k++) t += k < n ? (pass ? Fmt("%3d", 2) : sats[order[d][k]].id) : "  0"; t += "\n"; }
    t += "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n/* synthetic\n/* synthetic\n";
    std::vector<size_t> cut; size_t head = t.size();
    for (auto& ep : file[d]) { double loc = ep.t - d * kDay; Date w = Civil(base + d + (loc >= kDay)); double q = std::fmod(loc, kDay); t += Fmt("*  %4ld %2ld %2ld %2ld %2ld %11.8f\n", w.y, w.m, w.d, (long)(q / 3600), (long)(std::fmod(q, 3600) / 60), std::fmod(q, 60));
      for (int i : order[d]) { V3 x = 1e-3 * sats[i].At(ep.t), v = 10.0 * (sats[i].At(ep.t + 0.5) - sats[i].At(ep.t - 0.5)); if (!ep.pos[i]) x = V3(0.0); std::string P = Fmt("%14.6f%14.6f%14.6f%14.6f", x[0], x[1], x[2], ep.clk[i] ? sats[i].Clock_us(ep.t) : 999999.999999), X; switch (s.L("flags")) { case 1: X = "  7  9  8 105"; break; case 2: X = "              E"; break; case 3: X = "  7  9  8 105 EP  MP"; break; } t += "P" + sats[i].id + P + X + "\n"; if (vel) t += "V" + sats[i].id + Fmt("%14.6f%14.6f%14.6f%14.6f", v[0], v[1], v[2], sats[i].c) + "\n"; cut.push_back(t.size()); } }
    t += "EOF\n"; if (keep[d] < 1 && !cut.empty()) { size_t k = (size_t)(keep[d] * cut.size()); t.resize(k == 0 ? head : cut[k - 1]); file[d].resize(k / std::max<size_t>(1, n)); }
    if (lost[d]) file[d].clear(); else WriteFile(Fmt("gnss/SIM0OPSFIN_%ld%03ld0000_01D_15M_ORB.SP3", day.y, day.doy), t); for (auto& ep : file[d]) for (long i = 0; i < ns; i++) if (std::find(order[d].begin(), order[d].end(), (int)i) == order[d].end()) ep.pos[i] = ep.clk[i] = 0;
  }
  // what a user may expect of the records: nominal epochs from the day of the start on
  double day0 = std::floor(T0 / kDay); bool inside = T0 >= 0 && day0 < days && !file[(size_t)day0].empty() && s.P("calc", 1) > 0; std::map<long, std::pair<long, const Epoch*>> rec; double last = -1e300; if (inside) for (long d = (long)day0; d < days; d++) for (auto& ep : file[d]) { rec.insert({std::lround(ep.t / D), {d, &ep}}); last = std::max(last, ep.t); }
  long first = inside ? std::lround(day0 * kDay / D) : 0, end = inside ? std::lround(last / D) : 0; std::vector<int> index; if (inside) index = order[(size_t)day0];
  auto good = [&](int i, bool clk, double t) { if (!inside || t > last || end - first < 9) return false; long a = std::max(first, (long)std::floor(t / D) - 9), b = std::min(end, (long)std::ceil(t / D) + 9); for (long k = a; k <= b; k++) { auto it = rec.find(k); if (it == rec.end() || !(clk ? it->second.second->clk[i] : it->second.second->pos[i])) return false; } return true; };
  // simulation
  Settings st(1, 0); st.Quiet(); st.AllDisturbancesOff(0); st.AllNoiseOff(0); auto& b = st.base; auto& S = st.sat[0]; long sd = base + (long)day0; double sec = T0 - day0 * kDay; Date w = Civil(sd);
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:%ld:%ld", w.y, w.m, w.d, (long)(sec / 3600), (long)(std::fmod(sec, 3600) / 60), (long)std::fmod(sec, 60))).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", 0.0).Set("TIME", "attitude_update_period_s", dt).Set("TIME", "orbit_update_period_s", dt).Set("TIME", "thermal_update_period_s", dt).Set("TIME", "component_update_period_s", dt).Set("TIME", "log_output_period_s", dt * 1000).Set("TIME", "orbit_integral_step_s", dt).Set("TIME", "attitude_integral_step_s", dt).Set("TIME", "thermal_integral_step_s", dt);
  Date d0 = Civil(base), d1 = Civil(base + days - 1); const char* G = "GNSS_SATELLITES"; st.gnss.Set(G, "directory_path", "gnss/").Enable(G, "calculation", s.P("calc", 1) > 0).Enable(G, "logging", true).Set(G, "file_name_header", "SIM0OPSFIN").Set(G, "orbit_data_period", "15M").Set(G, "clock_file_name_footer", "15M_ORB.SP3").Set(G, "start_date", Fmt("%ld%03ld", d0.y, d0.doy)).Set(G, "end_date", Fmt("%ld%03ld", d1.y, d1.doy));
  { V3 u = RandDir(r), t = cross(u, RandDir(r)); double rad = kRe + s.P("alt", 500e3); S.Set("ORBIT", "propagate_mode", "KEPLER").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Vec("ORBIT", "initial_position_i_m", rad * u).Vec("ORBIT", "initial_velocity_i_m_s", (std::sqrt(3.986004418e14 / rad) / Norm(t)) * t); S.Set("ATTITUDE", "propagate_mode", "RK4").Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", V3(0.0)).Vec("ATTITUDE", "initial_torque_b_Nm", V3(0.0)); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) S.Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", k), q[k]); }
  const char* R = "GNSS_RECEIVER_1"; Quat b2c = RandQuat(r); V3 ant = r.Uni(0, 3) * RandDir(r); double half = s.P("half", 60); bool cone = s.P("cone", 1) > 0 && s.P("calc", 1) > 0; auto& rc = st.Comp(0, "gnss_receiver"); rc.Set(R, "prescaler", s.P("pre", 1)).Set(R, "antenna_model", s.P("cone", 1) > 0 ? "CONE" : "SIMPLE").Set(R, "antenna_half_width_deg", half).Vec(R, "antenna_position_b_m", ant).Vec(R, "white_noise_standard_deviation_position_ecef_m", V3(0.0)).Vec(R, "white_noise_standard_deviation_velocity_ecef_m_s", V3(0.0)); for (int k = 0; k < 4; k++) rc.Set(R, Fmt("quaternion_b2c(%d)", k), b2c[k]);
  st.Write(); Case::Hooks hk; std::shared_ptr<GnssReceiver> rx; std::unique_ptr<PowerPort> port(new PowerPort(0, 10.0)); port->SetVoltage_V(5.0); Case* cs_ = nullptr; Craft* k_ = nullptr; V3 held(0.0), heldv(0.0); long ticks = 0; double now = 0; bool seen = false; double edge = 0, mid = 0;
  auto table = [](const std::string& h, const std::string& v) { std::map<std::string, double> m; std::istringstream a(h), q(v); std::string x, y; while (std::getline(a, x, ',') && std::getline(q, y, ',')) m[x] = std::strtod(y.c_str(), nullptr); return m; };
  auto judge_rx = [&] {
    ticks++; c.Probe("receiver samples"); c.Hist((uint64_t)ticks); auto& k = *k_; auto& gn = k.global->GetGnssSatellites(); V3 pos = k.Dyn().GetOrbit().GetPosition_i_m(), ecef = k.Dyn().GetOrbit().GetPosition_ecef_m(), vel = k.Dyn().GetOrbit().GetVelocity_ecef_m_s(); Quat q = k.Dyn().GetAttitude().GetQuaternion_i2b(); V3 sight = q.InverseFrameConversion(b2c.InverseFrameConversion(Vec(0, 0, 1))), a = pos + q.InverseFrameConversion(ant);
    auto L = table(rx->GetLogHeader(), rx->GetLogValue()); double vis = -1, num = -1; for (auto& e : L) { if (e.first.find("satellite_visible_flag") != std::string::npos) vis = e.second; if (e.first.find("number_of_visible") != std::string::npos) num = e.second; }
    bool sure = true, want = false; std::string at = Fmt("at %.9g s", now);
    if (cone) {
      std::set<size_t> must, may; std::map<size_t, V3> where; for (size_t i = 0; i < gn.GetNumberOfCalculatedSatellite(); i++) { V3 p = gn.GetPosition_eci_m(i), l = p - a; if (Norm(p) == 0) continue; where[i] = l; double ang = std::atan2(Norm(cross(sight, l)), dot(sight, l)), m = half * kDeg - ang; double len = Norm(l), x = -dot(a, l) / len, near = x <= 0 ? Norm(a) : x >= len ? Norm(p) : Norm(a + (x / len) * l), h = x <= 0 || x >= len ? 1e9 : near - 6378137.0; if (m > 1e-9 && h > 2) must.insert(i); if (m > -1e-9 && h > -2) may.insert(i); if (h < 0 && x > 0 && x < len) c.Probe("satellites behind the Earth"); }
      c.Check(num >= (double)must.size() && num <= (double)may.size(), "visible-number", "%g satellites visible %s, geometry says %zu", num, at.c_str(), must.size()); std::set<size_t> got; for (size_t i = 0; i < (size_t)std::max(0.0, num); i++) { auto f = rx->GetGnssInfo(i); got.insert(f.gnss_id); c.Check(may.count(f.gnss_id) > 0, "visible", "satellite %zu reported visible %s is not", f.gnss_id, at.c_str()); if (!may.count(f.gnss_id)) continue; V3 l = where[f.gnss_id], lc = b2c.FrameConversion(q.FrameConversion(l)); double n = Norm(l); c.Near(f.distance_m, n, 1e-9 * n + 1e-6, "info", "distance of a satellite " + at); V3 e = Vec(std::cos(f.latitude_rad) * std::cos(f.longitude_rad), std::cos(f.latitude_rad) * std::sin(f.longitude_rad), std::sin(f.latitude_rad)); c.Near(Norm(e - (1 / n) * lc), 0, 1e-7, "info", "direction of a satellite " + at); }
      for (size_t i : must) c.Check(got.count(i) > 0, "visible", "satellite %zu is in view %s and not reported", i, at.c_str()); c.Check((double)got.size() == num, "visible-number", "%zu different satellites among %g reported %s", got.size(), num, at.c_str()); want = must.size() >= 4; sure = want == (may.size() >= 4); if (num > 0) c.Probe("visible satellites", (uint64_t)num);
    } else { double x = dot(pos, sight) / Norm(pos); want = x > 0; sure = std::fabs(x) > 1e-9; }
    if (sure) c.Check((vis > 0.5) == want, "fix", "position fix flag %g %s, %g satellites visible", vis, at.c_str(), num); V3 mp = rx->GetMeasuredPosition_ecef_m(), mv = rx->GetMeasuredVelocity_ecef_m_s();
    if (vis > 0.5) { c.Near(Norm(mp - ecef), 0, 1e-6 * 1e3, "measured", "measured position " + at); c.Near(Norm(mv - vel), 0, 1e-5, "measured", "measured velocity " + at); held = mp; heldv = mv; c.Probe("position fixes"); } else c.Check(Norm(mp - held) == 0 && Norm(mv - heldv) == 0, "hold", "receiver output changes without a fix %s", at.c_str());
    auto utc = cs_->Time().GetCurrentUtc(); double secs = utc.hour * 3600 + utc.minute * 60 + utc.second, got = 0; for (auto& e : L) { if (e.first.find("utc_time_hour") != std::string::npos) got += 3600 * e.second; if (e.first.find("utc_time_min") != std::string::npos) got += 60 * e.second; if (e.first.find("utc_time_sec") != std::string::npos) got += e.second; } c.Near(got, secs, 1e-3, "receiver-time", "receiver time " + at);
  };
  hk.build = [&](Craft& k, Parts& p) { k_ = &k; auto clk = &k.Clock(); rx.reset(new GnssReceiver(InitGnssReceiver(clk, port.get(), 1, st.CompFile(0, "gnss_receiver"), &k.Dyn(), &k.global->GetGnssSatellites(), &k.global->GetSimulationTime()))); auto rec2 = std::make_shared<Recorder>((int)std::max(1L, s.L("pre", 1)), clk, port.get(), judge_rx); port->SetVoltage_V(5.0); p.owned.push_back(rx); p.owned.push_back(rec2); };
  long absent = 0, present = 0;
  hk.before = [&](Case& cs, long step) {
    cs_ = &cs; now = cs.Time().GetElapsedTime_s(); for (auto& e : s.ev) { if (e.kind == "jump" && e.I(0) == step) { Rng q((uint64_t)e.I(1)); cs.craft[0]->Dyn().SetAttitude().SetQuaternion_i2b(RandQuat(q)); c.Count("attitude jump"); } if (e.kind == "power" && e.I(0) == step) { port->SetVoltage_V(e.A(1)); c.Count(e.A(1) > 0 ? "receiver switched on" : "receiver switched off"); } }
    auto& gn = cs.craft[0]->global->GetGnssSatellites(); double t = T0 + now; size_t n = gn.GetNumberOfCalculatedSatellite(); c.nontrivial = true; if (inside) { c.Check(n == index.size(), "number", "%zu of %zu satellites", n, index.size()); if (n != index.size()) return; }
    auto utc = cs.Time().GetCurrentUtc(); s2e::time_system::EpochTime here(s2e::time_system::DateTime((size_t)utc.year, (size_t)utc.month, (size_t)utc.day, (size_t)utc.hour, (size_t)utc.minute, utc.second));
    auto one = [&](size_t i, double tt, const V3& p, double clk, const char* how) {
      c.Check(std::isfinite(p[0] + p[1] + p[2] + clk), "finite", "satellite %zu at %.9g s %s", i, tt, how); if (!inside) { c.Check(Norm(p) == 0 && clk == 0, "no-data", "satellite %zu is reported at %.6g s without a product file for the start", i, tt); return; } auto& q = sats[index[i]]; int j = index[i]; bool gp = good(j, false, tt), gc = good(j, true, tt), clip = tt < first * D + 5 * D || tt > last - 5 * D; std::string who = Fmt("%s at product time %.9g s %s", q.id.c_str(), tt, how);
      if (tt > last + 2 * D) { c.Check(Norm(p) == 0 && clk == 0, "after-end", "%s is reported after the end of the products", who.c_str()); c.Probe("after the products"); return; } if (tt > last) return;
      double near = std::fabs(std::remainder(tt, D)), err = Norm(p - q.At(tt)), tol = clip && near > 1 ? 2 : 0.5; if (Norm(p) > 0) { c.Near(err, 0, tol, "position", "position of " + who); present++; (clip ? edge : mid) = std::max(clip ? edge : mid, err); } else { absent++; c.Check(!gp, "position-missing", "%s has records but no position", who.c_str()); }
      if (clk != 0) c.Near(clk, 1e-6 * q.Clock_us(tt), clip ? 1e-9 : 1e-10, "clock", "clock of " + who); else c.Check(!gc, "clock-missing", "%s has records but no clock", who.c_str()); if (!gp) c.Probe("satellites near bad data"); c.Hist(p[0]);
    };
    for (size_t i = 0; i < n; i++) one(i, t, gn.GetPosition_ecef_m(i), gn.GetClock_s(i), "");
    for (size_t i : {n, n + 1, n + 1000}) c.Check(Norm(gn.GetPosition_ecef_m(i)) == 0 && gn.GetClock_s(i) == 0, "range", "index %zu of %zu is reported", i, n);
    if (n > 0) { Rng q((uint64_t)(step + 17)); double off = std::floor(q.Uni(-3, 3) * D); size_t i = (size_t)q.Int(0, (long)n - 1); s2e::time_system::EpochTime then((uint64_t)((double)here.GetTime_s() + off), here.GetFraction_s()); if (t + off >= first * D && (t + off <= last)) { V3 p = gn.GetPosition_ecef_m(i, then); double clk = gn.GetClock_s(i, then); if (Norm(p) > 0) { auto& z = sats[index[i]]; c.Near(Norm(p - z.At(t + off)), 0, 100, "position", Fmt("position of %s asked for %.6g s away", z.id.c_str(), off)); } if (clk != 0) c.Near(clk, 1e-6 * sats[index[i]].Clock_us(t + off), 1e-9, "clock", "clock asked for another time"); c.Probe("queries for other times"); } auto& er = cs.craft[0]->Env().GetCelestialInformation().GetGlobalInformation().GetEarthRotation(); V3 x = er.GetDcmJ2000ToEcef() * gn.GetPosition_eci_m(i); c.Near(Norm(x - gn.GetPosition_ecef_m(i)), 0, 1e-2, "frame", "inertial position of a satellite"); }
    auto L = table(gn.GetLogHeader(), gn.GetLogValue()); for (size_t i = 0; i < 32; i++) { V3 p = gn.GetPosition_ecef_m(i); for (int a = 0; a < 3; a++) { auto it = L.find(Fmt("GPS%zu_position_ecef_%c[m]", i, "xyz"[a])); if (it == L.end()) continue; seen = true; c.Near(it->second, p[a], 1e-6 * std::fabs(p[a]) + 1e-6, "log", Fmt("logged position %zu", i)); } }
    double lag = inside ? std::fmod(t, kDay) : 0; c.State(Fmt("in%d after%d day%d edge%d lost%d abs%d step%d", inside, t > last, (int)std::min(5.0, std::max(-1.0, t / kDay)), lag < 5 * D || lag > kDay - 5 * D, (int)std::count(lost.begin(), lost.end(), true), absent > 0, (int)(dt > D)));
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); { Case cs(hk, false); cs.Initialize(); cs.Main(); rx.reset(); } g_clock.active = false; c.sim_time_s = now; if (present) c.Probe("satellite positions", (uint64_t)present); if (std::getenv("G01_ERR")) fprintf(stderr, "edge %g mid %g\n", edge, mid); c.Check(seen || steps < 2, "log", "no logged satellite position");
}
Registrar reg{[] { Property p; p.id = "G01"; p.generate = Gen; p.execute = Run; p.quick_runs = 600; p.thorough_runs = 60000; p.states_measure = "distinct (coverage, day, file edge, lost files, absent satellites, step over epochs)"; p.simple = {{"flags", 0}, {"velocity", 0}, {"end24", 0}, {"shuffle", 0}, {"days", 1}, {"sats", 5}, {"pre", 1}};
  p.real = "complete simulation case with the SP3 reader, satellite interpolation, Earth rotation and GNSS receiver"; p.stub = "SPICE ephemerides are analytic; product files are synthetic"; p.level_note = "interpolated positions within 2 m (100 m at the ends of the products) of an analytic constellation, clocks within 0.1 ns"; return p; }()};
}  // namespace
