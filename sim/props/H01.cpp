// Thermal networks inside a complete simulation: seeded nodes, couplings, heat-load tables, heaters and update periods.
// Every thermal update is judged against an independent integration of the same heat balance, an energy ledger and a hysteresis model.
#include <algorithm>
#include <cmath>
#include <math_physics/randomization/global_randomization.hpp>
#include <sstream>
#include "world/mission.hpp"
using namespace sim;
namespace {
const double kSigma = 5.670374419e-8, kRe = 6378137.0;
struct Net {
  int n = 0; std::vector<int> type, heater; std::vector<double> cap, alpha, eps, area, temp; std::vector<V3> nrm; std::vector<std::vector<double>> G, R; std::vector<double> time; std::vector<std::vector<double>> load; std::vector<double> power, low, high; bool solar = false;
  double Load(int i, double t) const { double T = time.back(), r = std::fmod(t, T); size_t k = 0; while (k + 2 < time.size() && r > time[k + 1]) k++; return load[i][k] + (load[i][k + 1] - load[i][k]) * (r - time[k]) / (time[k + 1] - time[k]); }
  std::vector<double> Slope(const std::vector<double>& x, double t, const std::vector<double>& fixed) const {
    std::vector<double> d(n, 0.0); for (int i = 0; i < n; i++) if (type[i] == 0) { double q = fixed[i] + Load(i, t); for (int j = 0; j < n; j++) q += G[i][j] * (x[j] - x[i]) + kSigma * R[i][j] * (std::pow(x[j], 4) - std::pow(x[i], 4)); d[i] = q / cap[i]; } return d;
  }
  std::vector<double> Step(std::vector<double> x, double t, double h, const std::vector<double>& f) const {
    auto add = [&](const std::vector<double>& a, const std::vector<double>& b, double c) { auto o = a; for (int i = 0; i < n; i++) o[i] += c * b[i]; return o; }; auto k1 = Slope(x, t, f), k2 = Slope(add(x, k1, h / 2), t + h / 2, f), k3 = Slope(add(x, k2, h / 2), t + h / 2, f), k4 = Slope(add(x, k3, h), t + h, f); for (int i = 0; i < n; i++) x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); return x;
  }
  std::vector<double> Solve(std::vector<double> x, double t0, double t1, double h, int split, const std::vector<double>& f) const { double t = t0; while (t1 - t > 1e-9) { double s = std::min(h, t1 - t); if (t1 - t - s < 1e-6) s = t1 - t; for (int k = 0; k < split; k++) x = Step(x, t + s * k / split, s / split, f); t += s; } return x; }
};
// fraction of the hemisphere of a plate, weighted with the cosine, that a sphere of radius Re at distance d fills
double ViewFactor(double lambda, double d) {
  double pm = std::asin(kRe / d), F = 0; const int N = 80; for (int i = 0; i < N; i++) { double th = pm * (i + 0.5) / N, w = std::sin(th) * pm / N * 2 * M_PI / N; for (int j = 0; j < N; j++) { double c = std::cos(th) * std::cos(lambda) + std::sin(th) * std::cos(2 * M_PI * (j + 0.5) / N) * std::sin(lambda); if (c > 0) F += c * w; } } return F / M_PI;
}
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["seed"] = (double)r.Int(1, 2000000000); s.p["geo"] = (double)r.Int(1, 1000000000); s.p["dt"] = r.Pick<double>({0.1, 0.5, 1, 1, 10, 60}); s.p["m_th"] = r.Chance(0.5) ? 1 : (double)r.Int(2, 7); s.p["m_orb"] = r.Chance(0.7) ? 1 : (double)r.Int(2, 5); s.p["split"] = r.Chance(0.4) ? 1 : r.LogUni(1, 8); s.p["steps"] = r.Chance(0.15) ? r.Int(200, 600) : r.Int(5, thorough ? 200 : 80);
  s.p["n"] = (double)r.Int(1, 6); s.p["isolated"] = r.Chance(0.25); s.p["solar"] = r.Chance(0.5); s.p["env"] = r.Chance(0.8); s.p["loads"] = (double)r.Int(0, 2); s.p["table"] = r.LogUni(0.05, 3); s.p["pieces"] = (double)r.Int(1, 6); s.p["smooth"] = r.Chance(0.5); s.p["heaters"] = r.Chance(0.6) ? (double)r.Int(1, 3) : 0; s.p["stiff"] = r.LogUni(1e-3, 0.8); s.p["alt"] = r.Chance(0.8) ? r.LogUni(200e3, 1700e3) : r.LogUni(1800e3, 4e7); s.p["point"] = r.Chance(0.4); s.p["spin"] = r.Chance(0.3) ? 0 : r.LogUni(1e-5, 0.05);
  long e = r.Int(0, 6); for (long i = 0; i < e; i++) s.Add((double)r.Int(1, s.L("steps")), "jump", {(double)r.Int(1, 1000000000)}); s.SortEvents(); return s;
}
void Run(const Script& s, Ctx& c) {
  double dt = s.P("dt", 1), upd = dt * std::max(1L, s.L("m_th", 1)), h = upd / std::max(1.0, s.P("split", 1)); long steps = std::max(1L, s.L("steps", 5)); Settings st(1, 0); st.Quiet(); st.AllDisturbancesOff(0); st.AllNoiseOff(0); auto& b = st.base; auto& S = st.sat[0]; Rng r((uint64_t)s.P("geo", 1));
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:%ld:%ld", r.Int(2018, 2026), r.Int(1, 12), r.Int(1, 28), r.Int(0, 23), r.Int(0, 59), r.Int(0, 59))).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", 0.0).Set("TIME", "attitude_update_period_s", dt).Set("TIME", "orbit_update_period_s", dt * std::max(1L, s.L("m_orb", 1))).Set("TIME", "thermal_update_period_s", upd).Set("TIME", "component_update_period_s", dt).Set("TIME", "log_output_period_s", dt * 1000).Set("TIME", "orbit_integral_step_s", dt).Set("TIME", "attitude_integral_step_s", std::min(dt, 1.0)).Set("TIME", "thermal_integral_step_s", h);
  Net N; N.n = (int)std::min(8L, std::max(1L, s.L("n", 1))); int n = N.n; bool iso = s.P("isolated") > 0, env = s.P("env") > 0 && !iso; N.solar = s.P("solar") > 0 && !iso; int loads = iso ? 0 : (int)s.P("loads"), nh = iso ? 0 : (int)s.P("heaters");
  for (int i = 0; i < n; i++) { N.type.push_back(i > 0 && r.Chance(0.25) ? 1 : 0); N.heater.push_back(0); N.cap.push_back(r.LogUni(0.5, 5000)); N.alpha.push_back(r.Uni(0, 1)); N.eps.push_back(iso ? 0 : r.Uni(0, 1)); N.area.push_back(std::min(r.LogUni(1e-3, 2), N.cap.back() * 300 / (3000 * (dt * steps + upd)))); N.temp.push_back(r.Chance(0.2) ? 2.73 : r.Uni(150, 400)); V3 u = RandDir(r); if (r.Chance(0.5)) { u = V3(0.0); u[(size_t)r.Int(0, 2)] = r.Sign(); } N.nrm.push_back(u); }
  N.G.assign(n, std::vector<double>(n, 0.0)); N.R = N.G; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { if (r.Chance(0.6)) N.G[i][j] = N.G[j][i] = r.LogUni(1e-3, 10); if (r.Chance(0.6)) N.R[i][j] = N.R[j][i] = r.LogUni(1e-4, 1); }
  // scale the couplings so that the integration is as stiff as wished, but stable
  double worst = 1e-12; for (int i = 0; i < n; i++) if (N.type[i] == 0) { double k = 0; for (int j = 0; j < n; j++) k += N.G[i][j] + 4 * kSigma * 4e8 * N.R[i][j]; worst = std::max(worst, k / N.cap[i] * std::min(h, upd)); } double sc = std::min(1.0, s.P("stiff", 0.1) / worst); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { N.G[i][j] *= sc; N.R[i][j] *= sc; }
  long pieces = std::max(1L, s.L("pieces", 1)); double span = upd * steps / std::max(1L, s.L("m_th", 1)) * s.P("table", 1); span = std::max(span, 1.5 * h); N.time.push_back(0); for (long k = 0; k < pieces; k++) N.time.push_back(N.time.back() + span / pieces * r.Uni(0.2, 1.8)); double mc = 1e300; for (int i = 0; i < n; i++) mc = std::min(mc, N.cap[i]); double lm = std::min(100.0, mc * 50 / (upd * steps));
  for (int i = 0; i < n; i++) { std::vector<double> v; for (size_t k = 0; k < N.time.size(); k++) v.push_back(loads == 0 ? 0 : loads == 1 ? lm * 0.3 * (i + 1) : lm * r.Uni(0, 1)); if (s.P("smooth") > 0) v.back() = v.front(); N.load.push_back(v); }
  std::vector<int> order; for (int i = 0; i < n; i++) if (N.type[i] == 0) order.push_back(i); for (int k = 0; k < nh && k < (int)order.size(); k++) { std::swap(order[k], order[(size_t)r.Int(k, (long)order.size() - 1)]); int i = order[k]; N.heater[i] = k + 1; N.power.push_back(N.cap[i] * r.LogUni(0.5, 200) / (upd * steps) * 2); double mid = N.temp[i] - 273.15 + r.Uni(-3, 3), w = r.Chance(0.2) ? 0 : r.LogUni(0.05, 5); N.low.push_back(mid - w); N.high.push_back(mid + w); } nh = (int)N.power.size();
  std::string dir = "settings/sat0/thermal/", node = "id,label,type,heater,cap,alpha,eps,area,nx,ny,nz,temp\n", cij = "[W/K]", rij = "[m2]", heat = "NodeID/Times[s]", heaters = "id,power,low,high\n"; auto F = [](double v) { return Fmt("%.17g", v); };
  for (int i = 0; i < n; i++) { node += Fmt("%d,N%d,%d,%d,", i, i, N.type[i], N.heater[i]) + F(N.type[i] ? 0 : N.cap[i]) + "," + F(N.alpha[i]) + "," + F(N.eps[i]) + "," + F(N.area[i]) + "," + F(2 * N.nrm[i][0]) + "," + F(2 * N.nrm[i][1]) + "," + F(2 * N.nrm[i][2]) + "," + F(N.temp[i]) + "\n"; cij += Fmt(",N%d", i); rij += Fmt(",N%d", i); }
  for (double t : N.time) heat += "," + F(t); heat += "\n"; cij += "\n"; rij += "\n"; for (int i = 0; i < n; i++) { cij += Fmt("N%d", i); rij += Fmt("N%d", i); heat += Fmt("%d", i); for (int j = 0; j < n; j++) { cij += "," + F(N.G[i][j]); rij += "," + F(N.R[i][j]); } for (double v : N.load[i]) heat += "," + F(v); cij += "\n"; rij += "\n"; heat += "\n"; } for (int k = 0; k < nh; k++) heaters += Fmt("%d,", k + 1) + F(N.power[k]) + "," + F(N.low[k]) + "," + F(N.high[k]) + "\n";
  auto& l = st.local[0]; l.Enable("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", env).Enable("EARTH_ALBEDO", "calculation", env).Enable("EARTH_INFRARED", "calculation", env).Enable("MAGNETIC_FIELD_ENVIRONMENT", "calculation", false).Enable("ATMOSPHERE", "calculation", false);
  S.Enable("THERMAL", "calculation", true).Enable("THERMAL", "debug", false).Enable("THERMAL", "solar_calc_setting", N.solar).Set("THERMAL", "thermal_file_directory", "SETTINGS_DIR_FROM_EXE/sat0/thermal/");
  { V3 u = RandDir(r), t = cross(u, RandDir(r)); double rad = 6378137 + s.P("alt", 500e3); S.Set("ORBIT", "propagate_mode", "RK4").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Vec("ORBIT", "initial_position_i_m", rad * u).Vec("ORBIT", "initial_velocity_i_m_s", (std::sqrt(3.986004418e14 / rad) / Norm(t)) * t); Quat q = RandQuat(r); for (int k = 0; k < 4; k++) S.Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", k), q[k]);
    S.Set("ATTITUDE", "propagate_mode", "RK4").Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", s.P("spin") / std::max(1.0, dt) * RandDir(r)).Vec("ATTITUDE", "initial_torque_b_Nm", V3(0.0)); if (s.P("point") > 0) { const char* C = "CONTROLLED_ATTITUDE"; V3 w = cross(N.nrm[0], RandDir(r)); S.Set("ATTITUDE", "propagate_mode", "CONTROLLED").Set(C, "main_mode", "EARTH_CENTER_POINTING").Set(C, "sub_mode", "VELOCITY_DIRECTION_POINTING").Vec(C, "main_pointing_direction_b", N.nrm[0]).Vec(C, "sub_pointing_direction_b", (1 / Norm(w)) * w); } }
  st.Write(); WriteGravityFiles(); WriteFile(dir + "node.csv", node); WriteFile(dir + "cij.csv", cij); WriteFile(dir + "rij.csv", rij); WriteFile(dir + "heatload.csv", heat); WriteFile(dir + "heaters.csv", heaters);
  Case::Hooks hk; double last = 0, done = 0; size_t next = 0; std::vector<double> x = N.temp; std::vector<bool> on(nh, false); bool all_diffusive = std::count(N.type.begin(), N.type.end(), 0) == n; double lo0 = *std::min_element(x.begin(), x.end()), hi0 = *std::max_element(x.begin(), x.end()); long switched = 0; int wraps = 0;
  hk.before = [&](Case& cs, long step) { for (; next < s.ev.size() && s.ev[next].t <= step; next++) { Rng q((uint64_t)s.ev[next].I(0)); cs.craft[0]->Dyn().SetAttitude().SetQuaternion_i2b(RandQuat(q)); c.Count("attitude jump"); } };
  hk.after = [&](Case& cs, long) {
    last = cs.Time().GetElapsedTime_s(); auto& k = *cs.craft[0]; auto& T = const_cast<s2e::dynamics::thermal::Temperature&>(k.Dyn().GetTemperature()); auto nodes = T.GetNodes(); c.Check((int)nodes.size() == n, "nodes", "%zu of %d nodes", nodes.size(), n); if ((int)nodes.size() != n) return; std::vector<double> y; for (auto& q : nodes) y.push_back(q.GetTemperature_K());
    auto at = [&](int i) { return Fmt("node %d at %.9g s", i, last); };
    if (!cs.Time().GetThermalPropagateFlag()) { for (int i = 0; i < n; i++) c.Check(y[i] == x[i], "hold", "temperature of %s changed without a thermal update", at(i).c_str()); return; }
    c.nontrivial = true; c.Probe("thermal updates"); V3 sun = k.Env().GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN"), earth = k.Env().GetCelestialInformation().GetPositionFromSpacecraft_b_m("EARTH"); V3 us = (1 / Norm(sun)) * sun, ue = (1 / Norm(earth)) * earth; double flux = k.Env().GetSolarRadiationPressure().GetPowerDensity_W_m2(), alb = k.Env().GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2(), ir = k.Env().GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2(), D = Norm(earth);
    // absorbed radiation: exact for the Sun, an independent view factor for the Earth
    std::vector<double> fixed(n, 0.0), L; { std::istringstream is(T.GetLogValue()); std::string e; while (std::getline(is, e, ',')) L.push_back(std::strtod(e.c_str(), nullptr)); } int nd = (int)std::count(N.type.begin(), N.type.end(), 0), d = 0; std::vector<double> hot(n, 0.0);
    for (int i = 0; i < n; i++) if (N.type[i] == 0) {
      double sol = 0, a = nodes[i].GetAlbedoRadiation_W(), e = nodes[i].GetEarthInfraredRadiation_W(); const char* w = "absorbed"; if (N.solar) { sol = flux * N.area[i] * N.alpha[i] * std::max(0.0, dot(us, N.nrm[i])); c.Near(nodes[i].GetSolarRadiation_W(), sol, 1e-9 * (1 + flux * N.area[i]), "sunlight", "sunlight absorbed by " + at(i)); c.Probe("sunlit surfaces"); }
      double lam = std::acos(std::min(1.0, std::max(-1.0, dot(ue, N.nrm[i])))), pe = ir * N.area[i] * N.eps[i], pa = alb * N.area[i] * N.alpha[i]; bool low = D - kRe < 1731e3;
      if (ir > 0 || alb > 0) { if (low) { double vf = ViewFactor(lam, D), tol = 2e-3; c.Near(e, pe * vf, pe * tol + 1e-12, w, "infrared radiation absorbed by " + at(i)); V3 bis = us - ue; double bn = Norm(bis), f3 = bn > 1e-9 ? std::pow(std::max(0.0, dot(-1.0 * ue, (1 / bn) * bis)), 3) : 0; if (N.solar) c.Near(a, pa * vf * f3, pa * tol + 1e-12, w, "albedo absorbed by " + at(i)); c.Probe("view factors"); } else c.Check(e >= 0 && e <= pe && (!N.solar || (a >= 0 && a <= pa)), w, "%s absorbs %.6g W infrared and %.6g W albedo of %.6g and %.6g W", at(i).c_str(), e, a, pe, pa); if (lam > M_PI / 2 + std::asin(kRe / D) + 1e-6) c.Check(e == 0 && (!N.solar || a == 0), w, "%s faces away from the Earth and absorbs its radiation", at(i).c_str()); } else c.Check(e == 0 && (!N.solar || a == 0), w, "%s absorbs radiation of the Earth that is not there", at(i).c_str());
      hot[i] = N.heater[i] && on[N.heater[i] - 1] ? N.power[N.heater[i] - 1] : 0; fixed[i] = sol + (N.solar ? a : 0) + e + hot[i];
      c.Check((int)L.size() >= 2 * nd, "log", "%zu values in the log", L.size()); if ((int)L.size() >= 2 * nd) { double q = fixed[i] + N.Load(i, last); bool edge = std::fabs(std::remainder(last, N.time.back())) < 1e-6; if (!edge) c.Near(L[nd + d], q, 1e-5 * (1 + std::fabs(q)), "heat", "heat put into " + at(i)); c.Near(L[d], y[i] - 273.15, 2e-3 + 1e-5 * std::fabs(y[i]), "log-temperature", "logged temperature of " + at(i)); } d++;
    }
    // temperatures
    double wrap = std::floor(last / N.time.back()) - std::floor(done / N.time.back()) + (std::fabs(std::remainder(last, N.time.back())) < 1e-6 || std::fabs(std::remainder(done, N.time.back())) < 1e-6); if (wrap > 0) { wraps++; c.Count("heat-load table wrapped"); } auto one = N.Solve(x, done, last, std::min(h, last - done), 1, fixed), ref = N.Solve(x, done, last, std::min(h, last - done), 4, fixed);
    for (int i = 0; i < n; i++) {
      if (N.type[i]) { c.Check(y[i] == N.temp[i], "boundary", "boundary %s is at %.9g K instead of %.9g K", at(i).c_str(), y[i], N.temp[i]); continue; } double jump = 0; if (wrap) jump = (wrap + 1) * std::fabs(N.load[i].back() - N.load[i].front()) * h / N.cap[i]; double net = 0; for (int j = 0; j < n; j++) net = std::max(net, std::fabs(one[j] - ref[j]));
      c.Near(y[i], ref[i], 3 * net + jump * 1.5 + 1e-9 * (std::fabs(ref[i]) + 1), "temperature", Fmt("temperature of %s, integrated from %.9g s", at(i).c_str(), done)); c.Hist(y[i]);
    }
    double gain = 0, in = 0, size = 1e-9; if (all_diffusive && loads != 2) { for (int i = 0; i < n; i++) { gain += N.cap[i] * (y[i] - x[i]); size += N.cap[i] * std::fabs(y[i]); double q = 0; const int M = 400; for (int m = 0; m < M; m++) q += N.Load(i, done + (last - done) * (m + 0.5) / M) / M; in += (fixed[i] + q) * (last - done); } c.Near(gain, in, 1e-9 * size, "conservation", Fmt("heat stored until %.9g s", last)); c.Probe("heat balances"); }
    if (iso) { c.Count("isolated updates"); for (int i = 0; i < n; i++) c.Check(y[i] >= lo0 - 1e-6 && y[i] <= hi0 + 1e-6, "extremes", "%s reaches %.9g K, the isolated network started between %.9g and %.9g K", at(i).c_str(), y[i], lo0, hi0); }
    // heaters
    for (int i = 0; i < n; i++) if (N.heater[i]) { int q = N.heater[i] - 1; double t = y[i] - 273.15; bool sure = std::fabs(t - N.low[q]) > 1e-9 && std::fabs(t - N.high[q]) > 1e-9, want = on[q] ? !(t > N.high[q]) : t < N.low[q]; double p = T.GetHeaterPower_W((size_t)i); c.Check(p == 0 || p == N.power[q], "heater-power", "heater of %s draws %.6g of %.6g W", at(i).c_str(), p, N.power[q]); bool is = p > 0; if (sure) c.Check(is == want, "hysteresis", "heater of %s at %.9g degC is %s, was %s, thresholds %.9g and %.9g degC", at(i).c_str(), t, is ? "on" : "off", on[q] ? "on" : "off", N.low[q], N.high[q]); if (is != on[q]) { switched++; c.Count(is ? "heater switched on" : "heater switched off"); } on[q] = is; c.Probe("heater decisions"); } else c.Check(T.GetHeaterPower_W((size_t)i) == 0, "heater-power", "%s has no heater but heats", at(i).c_str());
    x = y; done = last; c.State(Fmt("n%d iso%d solar%d loads%d wraps%d heaters%d switched%d", n, iso, N.solar, loads, std::min(wraps, 2), nh, (int)std::min(switched, 3L)));
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); { Case cs(hk, false); cs.Initialize(); cs.Main(); } g_clock.active = false; c.sim_time_s = last;
}
Registrar reg{[] { Property p; p.id = "H01"; p.generate = Gen; p.execute = Run; p.quick_runs = 1000; p.thorough_runs = 60000; p.states_measure = "distinct (nodes, isolation, sunlight, loads, table wraps, heaters, switchings)"; p.simple = {{"m_th", 1}, {"m_orb", 1}, {"loads", 0}, {"heaters", 0}};
  p.real = "complete simulation case with the thermal network, radiation environment, attitude and orbit"; p.stub = "SPICE ephemerides are analytic"; p.level_note = "temperatures within the difference of two independent integrations of the heat balance; Earth view factors below 1732 km against numerical integration"; return p; }()};
}  // namespace
