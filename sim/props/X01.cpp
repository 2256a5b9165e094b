// Damaged settings and data: seeded storage faults on every file a complete mission reads. A run in a process of its own ends normally or with a
// diagnosis, never with a memory error, a hang or a silent death; a lost entry acts like the same entry without a value; intact entries keep their values.
#include <math_physics/randomization/global_randomization.hpp>
#include <setting_file_reader/initialize_file_access.hpp>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include <components/real/communication/wings_command_sender_to_c2a.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <math_physics/gnss/antex_file_reader.hpp>
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
#include <math_physics/gnss/sp3_file_reader.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>
#include "world/child.hpp"
#include "world/mission.hpp"
using namespace sim;
using namespace s2e::components;
namespace {
// ---- damage
const char* kDamage[] = {"missing", "empty", "truncated", "lost line", "doubled line", "garbled value", "flipped byte", "zero bytes", "swapped lines", "lost block", "binary garbage", "directory instead", "short line", "lost separator", "endless line", "blank lines"};
const int kDamages = 16;
std::vector<std::string> Lines(const std::string& t) { std::vector<std::string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); v.push_back(t.substr(p, e - p)); p = e + 1; } return v; }
std::string Join(const std::vector<std::string>& v) { std::string t; for (auto& l : v) t += l + "\n"; return t; }
struct Damage { int kind = 0; uint64_t seed = 1; double where = 0; };
struct Hit { std::string text; bool gone = false, dir = false; long line = -1; };  // line: the only line that differs, when there is one
std::string Garble(Rng& r, const std::string& old) {
  switch (r.Int(0, 13)) { case 0: return ""; case 1: return "abc"; case 2: return "-1"; case 3: return "0"; case 4: return "1e400"; case 5: return "3000"; case 6: return "nan"; case 7: return "-"; case 8: return "1e-320"; case 9: return old + "x"; case 10: return "\xff\xfe\x01"; case 11: return old.substr(0, old.size() / 2); case 12: return std::string(300, '7'); default: return "NULL"; }
}
Hit Apply(const std::string& t, const Damage& d) {
  Rng r(d.seed); Hit h; auto v = Lines(t); if (v.empty()) { h.text = t; return h; } size_t k = std::min(v.size() - 1, (size_t)(d.where * v.size())), at = std::min(t.size() - 1, (size_t)(d.where * t.size()));
  if (d.kind != 2 && d.kind != 6 && d.kind != 7) for (int i = 0; i < 50 && (v[k].empty() || v[k][0] == '/' || v[k][0] == '#'); i++) k = (k + 1) % v.size();
  switch (d.kind) {
    case 0: h.gone = true; break; case 1: break; case 2: h.text = t.substr(0, at); break; case 3: h.line = (long)k; v.erase(v.begin() + k); h.text = Join(v); break; case 4: v.insert(v.begin() + k, v[k]); h.text = Join(v); break;
    case 5: { h.line = (long)k; size_t e = v[k].find('='); if (e != std::string::npos) v[k] = v[k].substr(0, e + 1) + " " + Garble(r, v[k].substr(std::min(v[k].size(), e + 2))); else { std::vector<size_t> b; for (size_t i = 0; i < v[k].size(); i++) if ((v[k][i] == ',' || v[k][i] == ' ') && i + 1 < v[k].size() && v[k][i + 1] != ' ' && v[k][i + 1] != ',') b.push_back(i + 1); b.push_back(0); size_t p = b[r.Int(0, (long)b.size() - 1)], q = v[k].find_first_of(", ", p); if (q == std::string::npos) q = v[k].size(); v[k] = v[k].substr(0, p) + Garble(r, v[k].substr(p, q - p)) + v[k].substr(q); } h.text = Join(v); break; }
    case 6: { h.text = t; long n = r.Chance(0.6) ? 1 : r.Int(2, 20); for (long i = 0; i < n; i++) h.text[i ? (size_t)r.Int(0, (long)t.size() - 1) : at] ^= (char)(1 << r.Int(0, 7)); break; }
    case 7: { h.text = t; size_t n = (size_t)r.LogUni(1, 600); for (size_t i = at; i < std::min(t.size(), at + n); i++) h.text[i] = 0; break; }
    case 8: { size_t q = (size_t)r.Int(0, (long)v.size() - 1); std::swap(v[k], v[q]); h.text = Join(v); break; }
    case 9: { size_t n = std::min(v.size() - k, (size_t)r.LogUni(2, 40)); v.erase(v.begin() + k, v.begin() + k + n); h.text = Join(v); break; }
    case 10: { long n = (long)r.LogUni(1, 5000); for (long i = 0; i < n; i++) h.text += (char)r.Int(0, 255); break; }
    case 11: h.dir = true; break;
    case 12: h.line = (long)k; v[k] = v[k].substr(0, (size_t)r.Int(0, (long)v[k].size())); h.text = Join(v); break;
    case 13: { h.line = (long)k; for (char& ch : v[k]) if (ch == ',' || ch == '=') { ch = ' '; if (r.Chance(0.7)) break; } h.text = Join(v); break; }
    case 14: { h.line = (long)k; std::string x = v[k]; long n = (long)r.LogUni(2, 400); for (long i = 0; i < n; i++) x += (r.Chance(0.5) ? "," : " ") + v[k]; v[k] = x; h.text = Join(v); break; }
    default: { long n = r.Int(1, 5); for (long i = 0; i < n; i++) v.insert(v.begin() + (size_t)r.Int(0, (long)v.size()), r.Chance(0.5) ? "" : "   "); h.text = Join(v); break; }
  }
  return h;
}
void Put(const std::string& f, const Hit& h) { unlink(f.c_str()); rmdir(f.c_str()); if (h.gone) return; if (h.dir) { mkdir(f.c_str(), 0755); return; } WriteFile(f, h.text); }
// ---- the intact tree
void OwnCopy(const std::string& dir) { std::vector<std::pair<std::string, std::string>> v; for (auto& f : ListTree(dir)) v.push_back({f, ReadFile(dir + "/" + f)}); if (unlink(dir.c_str())) return; for (auto& e : v) WriteFile(dir + "/" + e.first, e.second); }
bool Leap(long y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
void Forward(long& y, long& m, long& d) { long len[] = {31, Leap(y) ? 29L : 28L, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; if (++d > len[m - 1]) { d = 1; if (++m > 12) { m = 1; y++; } } }
void Tree(const Script& s) {
  long n = s.L("n"); Settings st = MissionSettings(s, AllDefs(s)); auto& b = st.base; Rng r((uint64_t)s.L("extra", 1)); b.Enable("SIMULATION_SETTINGS", "save_initialize_files", s.P("save") > 0);
  b.Enable("HIPPARCOS_CATALOGUE", "calculation", s.P("stars") > 0).Set("HIPPARCOS_CATALOGUE", "max_magnitude", 3.0).Set("HIPPARCOS_CATALOGUE", "catalogue_file_path", "SETTINGS_DIR_FROM_EXE/environment/star_catalogue/own.csv");
  const char* G = "GNSS_SATELLITES"; st.gnss.Set(G, "directory_path", "settings/environment/gnss/").Enable(G, "calculation", s.P("gnss") > 0).Enable(G, "logging", true).Set(G, "file_name_header", "SIM0OPSFIN").Set(G, "orbit_data_period", "15M").Set(G, "clock_file_name_footer", "15M_ORB.SP3");
  long Y = s.L("year", 2020), M = s.L("month", 4), D = s.L("day", 1); auto doy = [&](long y, long m, long d) { long len[] = {31, Leap(y) ? 29L : 28L, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; for (long i = 0; i + 1 < m; i++) d += len[i]; return d; }; st.gnss.Set(G, "start_date", Fmt("%ld%03ld", Y, doy(Y, M, D))).Set(G, "end_date", Fmt("%ld%03ld", Y, doy(Y, M, D)));
  for (long i = 0; i < n; i++) {
    st.local[i].Set("ATMOSPHERE", "nrlmsise00_table_file", "SETTINGS_DIR_FROM_EXE/environment/space_weather/sw.txt").Set("ATMOSPHERE", "is_manual_parameter_used", r.Chance(0.7) ? "DISABLE" : "ENABLE"); if (s.P("gnss") > 0) st.Comp((int)i, "gnss_receiver").Set("GNSS_RECEIVER_1", "antenna_model", "CONE");
    if (s.P("series") > 0 && i == n - 1) st.sat[i].Set("ORBIT", "propagate_mode", "TIME_SERIES_FILE");
    for (auto& f : {"rw_disturbance_csv_files"}) (void)f;
    auto& rw = st.Comp((int)i, "reaction_wheel"); if (s.P("jitter") > 0) rw.Set("REACTION_WHEEL_JITTER_1", "jitter_calculation", "ENABLE");
    auto& a = st.Comp((int)i, "spacecraft_antenna"); if (s.P("pattern") > 0) for (const char* p : {"tx_", "rx_"}) { std::string k = p; a.Set("ANTENNA_1", k + "antenna_gain_model", "RADIATION_PATTERN_CSV").Set("ANTENNA_1", k + "antenna_radiation_pattern_file", Fmt("SETTINGS_DIR_FROM_EXE/sat%ld/components/pattern.csv", i)).Set("ANTENNA_1", k + "length_theta", 20.0).Set("ANTENNA_1", k + "length_phi", 11.0); }
    st.Comp((int)i, "csv_scenario").Set("SCENARIO", "is_csv_scenario_enabled", "1").Set("SCENARIO", "csv_path", Fmt("settings/sat%ld/components/scenario.csv", i)); st.Comp((int)i, "power_port").Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 1.0);
  }
  st.Write(); WriteGravityFiles(); for (long i = 0; i < n; i++) { std::string d = Fmt("settings/sat%ld/", i); for (const char* f : {"orbit_files", "thermal_csv_files", "components/rw_disturbance_csv_files", "components/wings_command_sender_to_c2a"}) OwnCopy(d + f);
    std::string p; for (int k = 0; k < 20; k++) for (int j = 0; j < 11; j++) p += Fmt("%.2f%s", 3 - 0.3 * k + 0.1 * j, j == 10 ? "\n" : ","); WriteFile(d + "components/pattern.csv", p); std::string c = "time,0,1,2,3,4,5,6,7\n"; for (int k = 0; k < 10; k++) c += Fmt("%d,%g,%g,%g,%g,%g,%g,%g,%g\n", 10 * k, 1.0, 0.0, 2.0 * (k % 2), 0.5, 0.25, 0.0, 1.0, 1.0); WriteFile(d + "components/scenario.csv", c); }
  { std::string t = ReadFile("settings/environment/magnetic_field/igrf13.coef"); unlink("settings/environment/magnetic_field/igrf13.coef"); WriteFile("settings/environment/magnetic_field/igrf13.coef", t); }
  { std::string t = "hip_num,vmag,ra,de\n"; double m = -1; for (int i = 0; i < 40; i++) { m += r.Uni(0, 0.15); t += Fmt("%ld,%.4f,%.6f,%.6f\n", r.Int(1, 100000), m, r.Uni(0, 360), r.Uni(-90, 90)); } WriteFile("settings/environment/star_catalogue/own.csv", t); }
  { long y = Y - 1, m = M, d = D; static const char* mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; std::string t = Fmt("DATATYPE CssiSpaceWeather\nUPDATED %4ld %s %02d 06:10:09 UTC\nBEGIN OBSERVED\n", Y + 1, mn[M - 1], 1); for (int i = 0; i < 500; i++) { std::string row(131, ' '); auto put = [&](int p, const std::string& v) { row.replace(p, v.size(), v); }; put(0, Fmt("%04ld %02ld %02ld", y, m, d)); put(80, Fmt("%3d", 5 + i % 20)); put(93, Fmt("%5.1f", 100.0 + i % 50)); put(101, Fmt("%5.1f", 110.0)); put(107, "  1.0"); put(113, "  2.0"); put(119, "  3.0"); put(125, "  4.0"); t += row + "\n"; Forward(y, m, d); } WriteFile("settings/environment/space_weather/sw.txt", t + "END OBSERVED\n"); }
  { int ns = 6; std::string t = Fmt("#dP%4ld %2ld %2ld %2d %2d %11.8f %7d %5s %5s %3s %4s\n## %4d %15.8f %14.8f %5d %15.13f\n", Y, M, D, 0, 0, 0.0, 96, "ORBIT", "WGS84", "FIT", "SIM", 2000, 0.0, 900.0, 58000, 0.0); for (int pass = 0; pass < 2; pass++) for (int l = 0; l < 5; l++) { t += pass ? "++       " : l == 0 ? Fmt("+  %3d   ", ns) : std::string("+        "); for (int k = l * 17; k < l * 17 + 17; k++) t += k < ns ? (pass ? std::string("  2") : Fmt("G%02d", k + 1)) : std::string("  0"); t += "\n"; }
    t += "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n/* synthetic\n/* synthetic\n";
    for (int e = 0; e < 96; e++) { t += Fmt("*  %4ld %2ld %2ld %2d %2d %11.8f\n", Y, M, D, e / 4, e % 4 * 15, 0.0); for (int k = 0; k < ns; k++) { double u = 0.13 * e + k; t += Fmt("PG%02d%14.6f%14.6f%14.6f%14.6f\n", k + 1, 26560 * std::cos(u), 15000 * std::sin(u), 21900 * std::sin(u), 10.0 + k); } } WriteFile(Fmt("settings/environment/gnss/SIM0OPSFIN_%ld%03ld0000_01D_15M_ORB.SP3", Y, doy(Y, M, D)), t + "EOF\n"); }
  { std::string t = "[MONTE_CARLO_EXECUTION]\nmonte_carlo_enable = ENABLE\nlog_enable = DISABLE\nnumber_of_executions = 3\n\n[MONTE_CARLO_RANDOMIZATION]\nparameter(0) = attitude0.debug\nattitude0.debug.randomization_type = CartesianUniform\nparameter(1) = attitude0.omega\nattitude0.omega.randomization_type = CartesianNormal\n"; for (int k = 0; k < 3; k++) t += Fmt("attitude0.debug.mean_or_min(%d) = 0.0\nattitude0.debug.sigma_or_max(%d) = 1.0\nattitude0.omega.mean_or_min(%d) = 0.1\nattitude0.omega.sigma_or_max(%d) = 0.05\n", k, k, k, k); WriteFile("settings/mc.ini", t); }
}
// ---- one execution in a process of its own
struct Out { bool ok = false; std::string why, steps; std::vector<std::string> craft; };
Out Fly(const Script& s, uint64_t host, const std::set<std::string>& skip_ini_check) {
  (void)skip_ini_check; auto r = InChild([&] {
    struct rlimit lim = {6, 6}; setrlimit(RLIMIT_CPU, &lim); HostNoise{host}.Apply(); s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); Mission m(s, AllDefs(s)); std::vector<std::vector<double>> truth; long cap = s.L("steps") * 3 + 40, n = 0; double t0 = -1;
    m.ready = [&](Case& cs) { truth.resize(cs.craft.size()); };
    m.after = [&](Case& cs, long) { for (size_t i = 0; i < cs.craft.size() && i < m.kits.size(); i++) { Row w; SampleTruth(*cs.craft[i], w); SampleField(*cs.craft[i], w); SampleParts(*m.kits[i], w); truth[i].insert(truth[i].end(), w.v.begin(), w.v.end()); } double t = cs.Time().GetElapsedTime_s(); if (++n > cap) { if (!(t > t0)) throw std::logic_error("STUCK"); throw AbortCase(); } if (n % 20 == 0) t0 = t; };
    try {
      { MonteCarlo: (void)0; std::unique_ptr<s2e::simulation::MonteCarloSimulationExecutor> mc(s2e::simulation::InitMonteCarloSimulation("settings/mc.ini")); if (mc) mc->RandomizeAllParameters(); }
      auto hk = m.Hooks(); auto build = hk.build; hk.build = [&, build](Craft& k, Parts& p) { build(k, p); std::string d = Fmt("settings/sat%d/components/", k.GetSpacecraftId()); auto port = std::make_shared<PowerPort>(9, 1.0); port->InitializeWithInitializeFile(d + "power_port.ini"); p.owned.push_back(port);
        auto an = std::make_shared<Antenna>(InitAntenna(1, d + "spacecraft_antenna.ini")); for (double th : {0.0, 1.0, 3.0, 6.0}) for (double ph : {-3.0, 0.0, 2.0, 3.1}) { an->CalcTxEirp_dBW(th, ph); an->CalcRxGt_dB_K(th, ph); } p.owned.push_back(an);
        CsvScenarioInterface::Initialize(d + "csv_scenario.ini"); p.owned.push_back(std::make_shared<WingsCommandSenderToC2a>(InitWingsCommandSenderToC2a(&k.Clock(), k.global->GetSimulationTime().GetComponentStepTime_s(), d + "wings_command_sender_to_c2a/wings_command_sender_to_c2a.ini"))); };
      Case cs(hk, true); cs.Initialize(); if (s.P("gs") > 0) { InitAntenna(1, "settings/gs0/components/ground_station_antenna.ini"); InitGsCalculator("settings/gs0/components/ground_station_calculator.ini"); } cs.Main();
      for (auto& e : s.ev) (void)e;
    } catch (const AbortCase&) {}
    std::string o; for (auto& v : truth) PutBlob(o, Bytes(v)); return o;
  });
  Out o; o.ok = r.ok; o.why = r.why; if (r.ok) { size_t p = 0; while (p < r.out.size()) o.craft.push_back(GetBlob(r.out, p)); } return o;
}
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; MissionOpt o; o.max_craft = 2; o.min_steps = 3; o.max_steps = thorough ? 20 : 8; GenMission(r, s, o); s.p["extra"] = (double)r.Int(1, 1000000000); for (const char* k : {"stars", "gnss", "series", "jitter", "pattern", "save"}) s.p[k] = r.Chance(0.5); if (r.Chance(0.4)) s.p["gs"] = 1;
  for (long d = 0; d < s.L("n"); d++) if (r.Chance(0.5)) s.p[Fmt("s%ld.thermal", d)] = (double)r.Int(1, 2); for (long d = 0; d < s.L("n"); d++) s.p[Fmt("s%ld.noise", d)] = 0;
  s.ev.erase(std::remove_if(s.ev.begin(), s.ev.end(), [](const Event&) { return true; }), s.ev.end()); long k = r.Chance(0.7) ? 1 : r.Int(2, 4); for (long i = 0; i < k; i++) s.Add((double)i, "damage", {r.Uni(), (double)(r.Chance(0.45) ? r.Pick<long>({3, 5, 12}) : r.Int(0, kDamages - 1)), (double)r.Int(1, 1000000000), r.Uni()}); return s;
}
bool Number(const std::string& v) { if (v.empty()) return false; char* e; std::strtod(v.c_str(), &e); return *e == 0; }
// half of the damage goes to the data tables
const std::string& Target(const std::vector<std::string>& all, double u) {
  std::vector<const std::string*> ini, data; for (auto& f : all) (f.size() > 4 && f.compare(f.size() - 4, 4, ".ini") == 0 ? ini : data).push_back(&f);
  auto& v = u < 0.5 ? data : ini; double w = u < 0.5 ? 2 * u : 2 * u - 1; return *v[std::min(v.size() - 1, (size_t)(std::max(0.0, w) * v.size()))];
}
void Run(const Script& s, Ctx& c) {
  Tree(s); std::vector<std::string> all; for (auto& f : ListTree("settings")) all.push_back("settings/" + f); std::map<std::string, std::string> intact; for (auto& f : all) intact[f] = ReadFile(f);
  Out base = Fly(s, 0, {}); if (!base.ok) c.Fail("intact", "the intact mission %s", base.why.c_str());
  std::map<std::string, std::string> now = intact; std::set<std::string> touched; std::string what; long single = -1; std::string sfile; bool only = true; int count = 0;
  for (auto& e : s.ev) { if (e.kind != "damage") continue; std::string f = Target(all, e.A(0)); Damage d{(int)std::min((long)kDamages - 1, std::max(0L, e.I(1))), (uint64_t)e.I(2), e.A(3)}; if (touched.count(f)) continue; Hit h = Apply(intact[f], d); Put(f, h); touched.insert(f); c.Count(kDamage[d.kind]); what += Fmt("%s%s: %s", what.empty() ? "" : ", ", f.c_str(), kDamage[d.kind]); if (h.line >= 0) what += Fmt(" %ld (%s)", h.line + 1, Lines(intact[f])[h.line].substr(0, 60).c_str()); count++; if (d.kind == 3 && h.line >= 0) { single = h.line; sfile = f; } else only = false; if (h.gone || h.dir) now.erase(f); else now[f] = h.text; c.State(Fmt("%s %s", f.substr(f.find_last_of('/') + 1).c_str(), kDamage[d.kind])); }
  if (touched.empty()) return; c.nontrivial = true; c.sim_time_s = s.P("dt") * s.P("steps");
  Out o = Fly(s, 7, {}); c.Hist((uint64_t)o.ok); for (auto& v : o.craft) for (char ch : v.substr(0, 64)) c.Hist((uint64_t)(unsigned char)ch);
  bool slow = o.why.find("SP3 file not found") != std::string::npos;  // a long list of product files is searched
  if (!o.ok) {
    bool diagnosed = o.why.find("ended with status") == 0 ? o.why.find("AddressSanitizer") == std::string::npos : (o.why.find("signal 6") != std::string::npos && o.why.find("Assertion") != std::string::npos && o.why.find("stl_") == std::string::npos && o.why.find("__n < this->size()") == std::string::npos); diagnosed |= slow; if (o.why.find("allocation-size-too-big") != std::string::npos || o.why.find("out-of-memory") != std::string::npos) diagnosed = true;
    c.Check(slow || (o.why.find("STUCK") == std::string::npos && o.why.find("signal 24") == std::string::npos && o.why.find("signal 9") == std::string::npos), "hang", "the program does not end: %s; %s", what.c_str(), o.why.c_str()); c.Check(diagnosed, "crash", "%s; the program %s", what.c_str(), o.why.c_str()); c.Probe("diagnosed stops");
  } else c.Probe("runs to the end");
  // what is damaged for one spacecraft does not reach the ones before it
  if (o.ok && base.craft.size() > 1 && o.craft.size() == base.craft.size()) { bool later = true; for (auto& f : touched) later &= f.find(Fmt("settings/sat%zu/", base.craft.size() - 1)) == 0 && f.find("scenario") == std::string::npos; /* the power scenario is one for all spacecraft */ if (later) for (size_t i = 0; i + 1 < base.craft.size(); i++) { c.Check(o.craft[i] == base.craft[i], "isolation", "spacecraft %zu changes: %s", i, what.c_str()); c.Probe("undamaged spacecraft compared"); } }
  // nothing a file does not say comes from the host's memory
  bool again = s.L("extra") % 2 == 0 && o.ok;
  if (again) { Out q = Fly(s, 100 + (uint64_t)s.L("extra") % 1000, {}); c.Check(q.ok, "crash", "%s; on another host the program %s", what.c_str(), q.why.c_str()); c.Check(q.craft == o.craft, "undefined", "two runs of the same damaged mission differ: %s", what.c_str()); c.Probe("damaged missions repeated on another host"); }
  // a lost entry is an entry without a value
  if (only && count == 1 && single >= 0 && sfile.size() > 4 && sfile.compare(sfile.size() - 4, 4, ".ini") == 0) {
    auto v = Lines(intact[sfile]); std::string& l = v[single]; size_t e = l.find('='); if (e != std::string::npos) { l = l.substr(0, e + 1) + " NULL"; WriteFile(sfile, Join(v)); Out q = Fly(s, 8, {}); std::string w = what; if (q.ok && o.ok) { c.Check(q.craft == o.craft, "default", "a run without the entry differs from a run with the entry set to NULL: %s", w.c_str()); c.Probe("lost entries compared"); } else c.Check(q.ok == o.ok, "default", "%s: without the entry the program %s, with NULL it %s", w.c_str(), o.ok ? "runs" : o.why.c_str(), q.ok ? "runs" : q.why.c_str()); WriteFile(sfile, now[sfile]); }
  }
  // a settings file that is not there or not a settings file is refused as a whole
  for (auto& f : touched) { if (f.size() < 4 || f.compare(f.size() - 4, 4, ".ini")) continue; std::string bad; if (!now.count(f)) { if (access(f.c_str(), F_OK) == 0) continue; bad = "no file"; } else for (auto& l : Lines(now[f])) { if (l.empty() || l.size() > 190 || l.find('\0') != std::string::npos) continue; bool word = std::isalnum((unsigned char)l[0]) != 0, open = l[0] == '[' && l.find(']') == std::string::npos; for (char ch : l) word = word && (std::isalnum((unsigned char)ch) || std::strchr("_()., +-", ch)); if (word || open) { bad = l; break; } }
    if (bad.empty()) continue; bool refused = false; try { s2e::setting_file_reader::IniAccess ini(f); } catch (const std::exception&) { refused = true; } c.Check(refused, "accepted", "%s is read although it has the line '%s'", f.c_str(), bad.c_str()); c.Probe("malformed settings files"); }
  // intact entries keep their values
  for (auto& f : touched) { if (f.size() < 4 || f.compare(f.size() - 4, 4, ".ini") || !now.count(f)) continue; int kind = -1; for (auto& e : s.ev) if (e.kind == "damage" && Target(all, e.A(0)) == f) { kind = (int)e.I(1); break; } if (kind != 3 && kind != 5 && kind != 2 && kind != 15 && kind != 4) continue;
    auto a = Lines(intact[f]), b = Lines(now[f]); if (kind == 2 && !b.empty() && now[f].back() != '\n') b.pop_back(); size_t pre = 0, post = 0; while (pre < a.size() && pre < b.size() && a[pre] == b[pre]) pre++; while (post + pre < a.size() && post + pre < b.size() && a[a.size() - 1 - post] == b[b.size() - 1 - post]) post++; if (kind == 15) pre = a.size(); auto have = [&](size_t i) { return i < pre || i >= a.size() - post; };
    try {
      s2e::setting_file_reader::IniAccess ini(f); std::string sec; bool safe = true; Ini orig = Ini::Load(f); std::map<std::string, int> dup;
      for (size_t i = 0; i < a.size(); i++) { auto& l = a[i]; if (!l.empty() && l[0] == '[') { sec = l.substr(1, l.find(']') - 1); safe = have(i); for (size_t j = i + 1; safe && j < a.size(); j++) if (!a[j].empty() && a[j][0] == '[') { safe = have(j); break; } continue; }  /* a section runs into the next one when that header is lost */ size_t e = l.find('='); if (e == std::string::npos || !safe || !have(i)) continue; std::string k = l.substr(0, e), v = l.substr(e + 1); while (!k.empty() && k.back() == ' ') k.pop_back(); while (!v.empty() && v[0] == ' ') v.erase(0, 1); if (dup[sec + "/" + k]++ || k.find(':') != std::string::npos || l.size() > 190 || kind == 4) continue; if (Number(v)) { double want = std::strtod(v.c_str(), nullptr), got = ini.ReadDouble(sec.c_str(), k.c_str()); c.Check(got == want, "intact-value", "%s [%s] %s reads %.17g instead of %s; %s", f.c_str(), sec.c_str(), k.c_str(), got, v.c_str(), what.c_str()); if (v.find_first_of(".eE") == std::string::npos) c.Check(ini.ReadInt(sec.c_str(), k.c_str()) == (int)std::strtol(v.c_str(), nullptr, 0), "intact-value", "%s [%s] %s reads the integer %d instead of %s", f.c_str(), sec.c_str(), k.c_str(), ini.ReadInt(sec.c_str(), k.c_str()), v.c_str()); c.Probe("intact numbers"); } else if (v == "ENABLE" || v == "DISABLE") { c.Check(ini.ReadEnable(sec.c_str(), k.c_str()) == (v == "ENABLE"), "intact-value", "%s [%s] %s is not %s; %s", f.c_str(), sec.c_str(), k.c_str(), v.c_str(), what.c_str()); c.Probe("intact switches"); } else if (v.find("_DIR_FROM_EXE") == std::string::npos && v.find("//") == std::string::npos && v.find(';') == std::string::npos && !v.empty()) { std::string g = ini.ReadString(sec.c_str(), k.c_str()); c.Check(g == v, "intact-value", "%s [%s] %s reads '%s' instead of '%s'; %s", f.c_str(), sec.c_str(), k.c_str(), g.c_str(), v.c_str(), what.c_str()); c.Probe("intact texts"); } }
    } catch (const std::exception&) { c.Probe("rejected settings files"); }
  }
}
Registrar reg{[] { Property p; p.id = "X01"; p.generate = Gen; p.execute = Run; p.quick_runs = 700; p.thorough_runs = 60000; p.states_measure = "distinct (file, kind of damage)"; p.simple = {{"n", 1}, {"steps", 3}, {"gs", 0}, {"stars", 0}, {"gnss", 0}, {"series", 0}, {"jitter", 0}, {"pattern", 0}, {"save", 0}};
  p.real = "complete missions, settings reader, Monte-Carlo settings and every data file reader"; p.stub = "SPICE ephemerides are analytic; star catalogue, SP3, space weather and gravity tables are synthetic"; p.level_note = "AddressSanitizer build, 6 s of processor time per execution"; return p; }()};
}  // namespace
