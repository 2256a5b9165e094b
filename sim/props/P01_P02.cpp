// Electrical power: switched ports and the solar array / battery / bus controller loop.
#include <components/real/power/battery.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/power_control_unit.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <cfloat>
#include <cmath>
#include <sstream>
#include "world/world.hpp"
using namespace sim;
using namespace s2e::components;
namespace {
// =============================================================== P01
struct PortModel { double limit, vmin, load, v = 0, cur = 0; bool on = false, known = true;
  void Eval() { on = v >= vmin; cur = on ? load / v : 0; if (on && cur >= limit) { on = false; v = 0; cur = 0; } } };
const std::vector<double> kV = {0, 0.5, 1, 2.9, 3, 3.3, 4.9, 5, 5.1, 8, 12, 28};
const std::vector<double> kMin = {0.5, 1, 3, 3.3, 5, 12};
const std::vector<double> kW = {0, 0.1, 1, 2.5, 7, 13, 60, 200};
Script GenP01(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; long n = r.Int(5, thorough ? 400 : 150); s.p["ids"] = r.Int(1, 6); s.p["base"] = r.Pick<double>({0, 1, 10, -3});
  for (long i = 0; i < n; i++) {
    double id = r.Int(0, s.L("ids") - 1); int k = i < 2 ? 0 : r.Int(0, 17);
    if (k == 0) s.Add(i, "connect", {id, r.Pick<double>({0.37, 1.13, 3.7, 11})});
    else if (k == 1) s.Add(i, "connect4", {id, r.Pick<double>({0.37, 1.13, 3.7, 11}), r.Pick(kMin), r.Pick(kW)});
    else if (k == 2) s.Add(i, "close", {id});
    else if (k <= 6) s.Add(i, "voltage", {id, r.Pick(kV)});
    else if (k == 7) s.Add(i, "load", {id, r.Pick(kW)});
    else if (k == 8) s.Add(i, "add", {id, r.Pick(kW)});
    else if (k == 9) s.Add(i, "subtract", {id, r.Pick(kW)});
    else if (k == 10) s.Add(i, "minimum", {id, r.Pick(kMin)});
    else if (k == 11) s.Add(i, "limit", {id, r.Pick<double>({0.37, 1.13, 3.7, 11})});
    else if (k == 12) s.Add(i, "file", {id, r.Pick(kMin), r.Pick(kW)});
    else if (k == 13) s.Add(i, "near-minimum", {id, r.Sign() * r.Pick<double>({1e-6, 1e-4, 1e-2})});
    else if (k == 14) s.Add(i, "near-limit", {id, r.Sign() * r.Pick<double>({3.1e-6, 3.3e-4, 2.7e-2})});
    else if (k == 15) s.Add(i, "voltage", {id, r.Uni(-1, 40)});
    else if (k == 16) s.Add(i, "load", {id, r.LogUni(1e-3, 500)});
    else s.Add(i, "update", {id});
  }
  return s;
}
void RunP01(const Script& s, Ctx& c) {
  s2e::environment::ClockGenerator clock; PowerControlUnit pcu(&clock); std::map<int, PortModel> m; int nf = 0;
  for (auto& e : s.ev) {
    int id = (int)(s.L("base") + e.I(0) % std::max(1l, s.L("ids"))); bool has = m.count(id); double a = e.A(1);
    if (e.kind == "connect" || e.kind == "connect4") {
      int ret = e.kind == "connect" ? pcu.ConnectPort(id, a) : pcu.ConnectPort(id, a, e.A(2), e.A(3));
      c.Check(ret == (has ? -1 : 0), "connect-result", "connecting %s port %d returned %d", has ? "used" : "free", id, ret);
      if (!has) m[id] = e.kind == "connect" ? PortModel{a, 3.3, 0.0} : PortModel{a, e.A(2), e.A(3)}; else c.Count("connect to a used port");
    } else if (e.kind == "close") {
      int ret = pcu.ClosePort(id); c.Check(ret == (has ? 0 : -1), "close-result", "closing %s port %d returned %d", has ? "used" : "free", id, ret); m.erase(id); c.Count(has ? "port closed" : "close of a free port");
    } else if (has) {
      PowerPort* p = pcu.GetPowerPort(id); PortModel& q = m[id]; c.Check(p != nullptr, "port-lost", "connected port %d is not available", id);
      bool eval = false, got = false, was = q.on;
      if (e.kind == "voltage") { got = p->SetVoltage_V(a); q.v = a; eval = true; }
      else if (e.kind == "update") { got = p->Update(); eval = true; }
      else if (e.kind == "near-minimum") { double v = q.vmin * (1 + a); got = p->SetVoltage_V(v); q.v = v; eval = true; c.Count(a < 0 ? "voltage just below the minimum" : "voltage just above the minimum"); }
      else if (e.kind == "near-limit") { if (!q.on) continue; q.load = q.limit * q.v * (1 + a); p->SetAssumedPowerConsumption_W(q.load); got = p->Update(); eval = true; c.Count(a < 0 ? "current just below the limit" : "current just above the limit"); }
      else if (e.kind == "load") { p->SetAssumedPowerConsumption_W(a); q.load = a; }
      else if (e.kind == "add") { p->AddAssumedPowerConsumption_W(a); q.load += a; }
      else if (e.kind == "subtract") { p->SubtractAssumedPowerConsumption_W(a); q.load = std::max(0.0, q.load - a); }
      else if (e.kind == "minimum") { p->SetMinimumVoltage_V(a); q.vmin = a; }
      else if (e.kind == "limit") { p->SetCurrentLimit_A(a); q.limit = a; }
      else if (e.kind == "file") {
        std::string f = Fmt("port%d.ini", nf++); WriteFile(f, Fmt("[POWER_PORT]\nminimum_voltage_V = %.17g\nassumed_power_consumption_W = %.17g\n", a, e.A(2)));
        p->InitializeWithInitializeFile(f); q.vmin = a; q.load = e.A(2);
      }
      if (eval) {
        double v0 = q.v; q.Eval(); if (q.v == 0 && v0 != 0) c.Count("over-current trip"); if (was && !q.on) c.Count("port lost power"); if (v0 > 0 && v0 < q.vmin) c.Count("under-voltage");
        c.Check(got == q.on, "returned-state", "port %d: evaluation returned %d, expected %d (%.4g V, minimum %.4g V, %.4g W, limit %.4g A)", id, got, q.on, v0, q.vmin, q.load, q.limit);
      }
    }
    for (auto& kv : m) {
      const PowerPort* p = pcu.GetPowerPort(kv.first); const PortModel& q = kv.second;
      c.Check(p->GetIsOn() == q.on, "on-state", "after %s of port %d: port %d is %s, expected %s (%.4g V, minimum %.4g V, %.4g W, limit %.4g A)", e.kind.c_str(), id, kv.first, p->GetIsOn() ? "on" : "off", q.on ? "on" : "off", q.v, q.vmin, q.load, q.limit);
      c.Near(p->GetVoltage_V(), q.v, 0, "voltage", Fmt("voltage of port %d after %s of port %d", kv.first, e.kind.c_str(), id));
      c.Near(p->GetCurrentConsumption_A(), q.cur, 1e-12 * (1 + q.cur), "current", Fmt("current of port %d after %s of port %d", kv.first, e.kind.c_str(), id));
      c.Near(p->GetAssumedPowerConsumption_W(), q.load, 1e-12 * (1 + q.load), "assumed-power", Fmt("assumed power of port %d after %s of port %d", kv.first, e.kind.c_str(), id));
      c.State((uint64_t)(q.on * 2 + (q.v > 0)) * 1000 + (uint64_t)(q.vmin * 10) + 100000 * (uint64_t)(q.cur * 10)); c.Hist(q.cur); c.Hist((uint64_t)q.on);
    }
    c.nontrivial = true;
  }
  while (!m.empty()) { pcu.ClosePort(m.begin()->first); m.erase(m.begin()); }
}

// =============================================================== P02
Script GenP02(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["step"] = r.Pick<double>({0.5, 1, 2, 5, 10, 30}); s.p["cstep"] = s.p["step"] * r.Pick<double>({1, 1, 2, 3}); s.p["n"] = r.Int(20, thorough ? 1200 : 300);
  s.p["saps"] = r.Int(0, 3); s.p["bat_first"] = r.Chance(0.5); s.p["world"] = r.Int(0, 1000000); s.p["csv"] = r.Chance(0.4); s.p["sap_only"] = r.Chance(0.1); s.p["abrupt"] = r.Chance(0.3);
  s.p["bat_pre"] = r.Pick<double>({0, 1, 1, 2, 5, 10}); s.p["pcu_pre"] = r.Pick<double>({-1, 1, 1, 2, 5, 10}); for (int i = 1; i <= 3; i++) s.p[Fmt("sap_pre%d", i)] = r.Pick<double>({0, 1, 1, 2, 7, 10});
  s.p["ns"] = r.Int(1, 8); s.p["np"] = r.Int(1, 6); s.p["cap"] = r.Uni(0.3, 5); s.p["dod"] = r.Pick<double>({0, 20, 50, 95, r.Uni(0, 100)}); s.p["crate"] = r.Uni(0.05, 1.5); s.p["res"] = r.LogUni(0.01, 3); s.p["cvcell"] = r.Uni(3.6, 4.25);
  s.p["order"] = r.Int(1, 7); s.p["area"] = r.LogUni(0.0003, 0.3);
  double t = r.Chance(0.5) ? 0 : r.Uni(0, 0.2) * s.p["n"] * s.p["step"];
  if (s.P("csv")) for (int i = r.Int(1, 14); i > 0; i--) {
    bool flag = r.Chance(0.7); V3 d = RandDir(r); double pw = r.Pick<double>({0, 0, 2, 5, 20, 100, 1000}) * r.Uni(0.5, 1.5); double sc = r.Pick<double>({1, 1, 1, 0.3, 2, 0});
    s.Add((long)t, "load", {std::round(t * 10) / 10, d[0] * sc, d[1] * sc, d[2] * sc, (double)flag, pw}); t += r.Uni(0.02, 0.3) * s.p["n"] * s.p["step"];
  }
  return s;
}
std::vector<double> Columns(const std::string& csv) { std::vector<double> v; std::istringstream is(csv); std::string t; while (std::getline(is, t, ',')) if (!t.empty()) v.push_back(atof(t.c_str())); return v; }
void RunP02(const Script& s, Ctx& c) {
  Settings st(1, 0); double step = s.P("step"), cstep = s.P("cstep"); long n = s.L("n"); Rng w(s.L("world")); int nsap = s.L("saps"); bool csv = s.P("csv");
  st.Quiet(); st.AllDisturbancesOff(0); st.AllNoiseOff(0); st.Duration(step * (n - 0.5));
  for (const char* k : {"simulation_step_s", "attitude_update_period_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s", "thermal_integral_step_s", "log_output_period_s"}) st.base.Set("TIME", k, step);
  st.base.Set("TIME", "attitude_integral_step_s", step / 2).Set("TIME", "component_update_period_s", cstep).Set("TIME", "log_output_period_s", step * n);
  st.base.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:00:00.0", w.Int(2000, 2040), w.Int(1, 12), w.Int(1, 28), w.Int(0, 23)));
  Quat q = RandQuat(w); for (int i = 0; i < 4; i++) st.sat[0].Set("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", i), q[i]);
  st.sat[0].Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", w.Uni(0, 0.05) / std::max(1.0, step) * RandDir(w));
  double rad = 6.378e6 + w.LogUni(3e5, 2e7); V3 d1 = RandDir(w), d2 = RandDir(w), t = OuterProduct(d1, d2); if (Norm(t) < 1e-3) t = OuterProduct(d1, Vec(0.6, 0.8, 0.1)); t = (1 / Norm(t)) * t;
  st.sat[0].Vec("ORBIT", "initial_position_i_m", rad * d1).Vec("ORBIT", "initial_velocity_i_m_s", std::sqrt(3.986004418e14 / rad) * t);
  Ini bat, pcu, sap;
  int ns = s.L("ns"), np = s.L("np"), order = s.L("order"); double cap = s.P("cap"), dod = s.P("dod"), res = s.P("res"), cc = s.P("crate") * cap * np, cv = s.P("cvcell") * ns; std::vector<double> poly;
  bat.Set("BATTERY_1", "prescaler", s.L("bat_pre")).Set("BATTERY_1", "number_of_series", ns).Set("BATTERY_1", "number_of_parallel", np).Set("BATTERY_1", "cell_capacity_Ah", cap).Set("BATTERY_1", "approximation_order", order)
      .Set("BATTERY_1", "initial_dod", dod).Set("BATTERY_1", "constant_charge_current_rate_C", s.P("crate")).Set("BATTERY_1", "constant_voltage_charge_voltage_V", cv).Set("BATTERY_1", "battery_resistance_Ohm", res);
  for (int i = 0; i <= order; i++) { poly.push_back(i == 0 ? 4.2 : (i == 1 ? -0.2 : -0.05) * w.Uni(0, 1) / std::pow(cap, i)); bat.Set("BATTERY_1", Fmt("cell_discharge_curve_coefficients(%d)", i), poly.back()); }
  pcu.Set("PCU_INITIAL_STUDY_1", "prescaler", s.L("pcu_pre"));
  struct Panel { int pre; V3 n; double k; double p = 0; }; std::vector<Panel> panel;
  for (int i = 1; i <= nsap; i++) {
    std::string sec = Fmt("SOLAR_ARRAY_PANEL_%d", i); double area = s.P("area") * w.Uni(0.5, 1.5), ce = w.Uni(0.05, 1), te = w.Uni(0.2, 1); int a = w.Int(1, 8), b = w.Int(1, 4); V3 dir = RandDir(w); double len = w.Pick<double>({1, 1, 0.2, 5});
    sap.Set(sec, "prescaler", s.L(Fmt("sap_pre%d", i))).Set(sec, "cell_area_m2", area).Vec(sec, "normal_vector_b", len * dir).Set(sec, "cell_efficiency", ce).Set(sec, "transmission_efficiency", te).Set(sec, "number_of_series", a).Set(sec, "number_of_parallel", b);
    panel.push_back({(int)std::max(1l, s.L(Fmt("sap_pre%d", i))), dir, area * ce * te * a * b});
  }
  st.Write(); WriteFile("settings/battery.ini", bat.Text()); WriteFile("settings/pcu.ini", pcu.Text()); WriteFile("settings/sap.ini", sap.Text());
  std::map<double, std::vector<double>> table;
  if (csv) {
    std::string text = "time,sun_dir_b_x,sun_dir_b_y,sun_dir_b_z,sun_flag,power_consumption\n";
    for (auto& e : s.ev) { table[e.A(0)] = {e.A(1), e.A(2), e.A(3), e.A(4), e.A(5)}; text += Fmt("%.17g,%.17g,%.17g,%.17g,%d,%.17g\n", e.A(0), e.A(1), e.A(2), e.A(3), (int)e.A(4), e.A(5)); c.Count("load or illumination step"); }
    if (s.ev.empty()) return;
    WriteFile("settings/power.csv", text); WriteFile("settings/scenario.ini", "[SCENARIO]\nis_csv_scenario_enabled = 1\ncsv_path = settings/power.csv\n");
    CsvScenarioInterface::Initialize("settings/scenario.ini");
  }
  auto row = [&](double time) { auto i = table.upper_bound(time); return i == table.begin() ? std::vector<double>(5, 0.0) : std::prev(i)->second; };
  int bat_pre = std::max(1l, s.L("bat_pre")), pcu_pre = std::max(1l, s.L("pcu_pre")); bool use_pcu = !s.P("sap_only");
  std::vector<SolarArrayPanel*> saps; Battery* b = nullptr; PcuInitialStudy* p = nullptr;
  auto volt = [&]() { double x = dod / 100 * cap, v = 0; for (int i = order; i >= 0; i--) v = v * x + poly[i]; return v * ns; };
  double cur = 0, load = 0, bus = 0, tmax = 1; long tick = 0; bool ran = false, exhausted = false; double e_in = 0;
  Case::Hooks h;
  h.build = [&](Craft& k, Parts& parts) {
    auto own = [&](auto* x) { parts.owned.push_back(std::shared_ptr<void>(x, [x](void*) { delete x; })); return x; };
    auto mk_bat = [&] { b = own(new Battery(InitBAT(&k.Clock(), 1, "settings/battery.ini", cstep))); };
    if (s.P("bat_first")) mk_bat();
    for (int i = 1; i <= nsap; i++) saps.push_back(own(new SolarArrayPanel(csv && s.L("world") % 2 ? InitSAP(&k.Clock(), i, "settings/sap.ini", &k.Env().GetSolarRadiationPressure(), cstep)
      : InitSAP(&k.Clock(), i, "settings/sap.ini", &k.Env().GetSolarRadiationPressure(), &k.Env().GetCelestialInformation(), cstep))));
    if (!s.P("bat_first")) mk_bat();
    if (use_pcu) p = own(new PcuInitialStudy(InitPCU_InitialStudy(&k.Clock(), 1, "settings/pcu.ini", saps, b, cstep)));
  };
  h.ready = [&](Case&) { c.Near(b->GetVoltage_V(), volt(), 1e-9 * ns * 10, "battery-voltage", "initial battery voltage"); c.Near(b->GetCcChargeCurrent_C(), cc, 1e-9 * cc, "charge-limit", "constant charge current"); };
  h.after = [&](Case& k, long i) {
    if (!k.Time().GetCompoUpdateFlag() || exhausted) return;
    auto& env = k.craft[0]->Env(); double time = cstep * tick; std::vector<double> rw = row(time);
    auto battery = [&] { if (tick % bat_pre == 0) { double before = dod; dod -= cur * cstep * bat_pre / 3600 / (cap * np) * 100; e_in += std::fabs(dod - before); ran = true; } };
    if (s.P("bat_first")) battery();
    for (auto& x : panel) if (tick % x.pre == 0) {
      V3 sun = csv ? Vec(rw[0], rw[1], rw[2]) : env.GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN"); double l = Norm(sun);
      double flux = csv ? (rw[3] != 0 ? env.GetSolarRadiationPressure().GetSolarConstant_W_m2() : 0) : env.GetSolarRadiationPressure().GetPowerDensity_W_m2();
      double cosine = l > 0 ? InnerProduct(x.n, sun) / l : 0; x.p = std::max(0.0, x.k * flux * cosine); c.Count(x.p > 0 ? "panel lit" : "panel dark");
    }
    if (!s.P("bat_first")) battery();
    double gen = 0; for (size_t j = 0; j < panel.size(); j++) {
      c.Check(saps[j]->GetPowerGeneration_W() >= 0, "negative-generation", "panel %zu generates %.6g W", j + 1, saps[j]->GetPowerGeneration_W());
      c.Near(saps[j]->GetPowerGeneration_W(), panel[j].p, 1e-9 * (1 + panel[j].p), "generated-power", Fmt("power of panel %zu at step %ld", j + 1, i)); gen += panel[j].p;
    }
    double v = volt(); c.Near(b->GetVoltage_V(), v, 1e-8 * (std::fabs(v) + ns), "battery-voltage", Fmt("battery voltage at step %ld (depth of discharge %.6g %%)", i, dod));
    auto bl = Columns(b->GetLogValue()); c.Check(bl.size() == 2, "battery-log", "battery log has %zu columns", bl.size());
    c.Near(bl[1], dod, 2e-6 * std::max(1.0, std::fabs(dod)) * 10, "depth-of-discharge", Fmt("logged depth of discharge at step %ld", i));
    if (use_pcu) {
      if (tick % pcu_pre == 0) {
        load = csv ? rw[4] : 5.0; double disc = v * v + 4 * res * (gen - load); exhausted = v < 0.5 * ns || std::fabs(disc) < 1e-6 * v * v;  /* beyond this the step is ill-conditioned */
        if (disc < 0) c.Count("load beyond the battery's maximum power");
        double nat = (-v + std::sqrt(std::max(0.0, disc))) / (2 * res), climb = (cv - v) / res; cur = std::min({nat, cc, climb}); bus = v + res * cur;
        c.Count(cur == nat ? (nat < 0 ? "discharging" : "natural charge") : cur == cc ? "constant current charge" : "constant voltage charge"); c.State((uint64_t)(dod / 2) * 10 + (cur == nat ? (nat < 0) : cur == cc ? 2 : 3));
      }
      auto pl = Columns(p->GetLogValue()); c.Check(pl.size() == 2, "pcu-log", "controller log has %zu columns", pl.size());
      c.Check(std::isfinite(pl[0]) && std::isfinite(pl[1]), "not-finite", "controller reports %.6g W and %.6g V at step %ld", pl[0], pl[1], i);
      c.Near(pl[0], load, 1e-5 * (1 + load), "load", Fmt("power consumption at step %ld", i));
      c.Near(pl[1], bus, 1e-5 * (1 + std::fabs(bus)) + 1e-8 * std::fabs(v), "bus-voltage", Fmt("bus voltage at step %ld", i));
      c.Check(pl[1] <= cv + 1e-4 * cv + 1e-8 * std::fabs(v), "over-voltage", "bus voltage %.6g V above the configured %.6g V", pl[1], cv);
    }
    tmax = k.Time().GetElapsedTime_s(); c.Hist(dod); c.Hist(bus); tick++;
  };
  Fly(st, h); c.sim_time_s = tmax; c.nontrivial = ran && e_in > 0;
}
Registrar r1{[] { Property p; p.id = "P01"; p.generate = GenP01; p.execute = RunP01; p.quick_runs = 5000; p.thorough_runs = 300000; p.states_measure = "distinct (switch state, voltage present, minimum voltage, current) situations of a port";
  p.real = "PowerPort, PowerControlUnit, IniAccess"; p.stub = "none of the code involved"; p.level_note = "the voltage may equal the minimum but the current never equals the limit; the nearest approach to either is one part in a million"; return p; }()};
Registrar r2{[] { Property p; p.id = "P02"; p.generate = GenP02; p.execute = RunP02; p.quick_runs = 1500; p.thorough_runs = 60000; p.simple = {{"csv", 0}, {"saps", 1}, {"bat_pre", 1}, {"pcu_pre", 1}};
  p.states_measure = "distinct (2 % band of depth of discharge, charging mode) situations"; p.real = "whole SimulationCase main loop, environment, SolarArrayPanel, Battery, PcuInitialStudy, CsvScenarioInterface"; p.stub = "CSPICE ephemerides (analytic stand-in)";
  p.level_note = "a cell voltage curve of order 1 to 7; at most three panels"; return p; }()};
}  // namespace
