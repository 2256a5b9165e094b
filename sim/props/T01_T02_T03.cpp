// Simulation clock: time base, update cadence, real-time pacing.
#include <cmath>
#include <environment/global/simulation_time.hpp>
#include <components/base/component.hpp>
#include <sstream>
#include "world/world.hpp"
using namespace sim;
using s2e::environment::SimulationTime;

namespace {
// ---- independent calendar (days from civil, Gregorian)
long DaysFromCivil(long y, long m, long d) {
  y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400);
  unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (long)doe - 719468;
}
int Dim(long y, long m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); }
double Gmst82(double jd) {  // independent form of IAU-82 mean sidereal time
  double d0 = std::floor(jd - 0.5) + 0.5, H = (jd - d0) * 24, T0 = (d0 - 2451545.0) / 36525;
  double s = 24110.54841 + 8640184.812866 * T0 + 0.093104 * T0 * T0 - 6.2e-6 * T0 * T0 * T0 + 1.002737909350795 * H * 3600;
  double a = std::fmod(s, 86400.0) / 86400 * 2 * M_PI; return a < 0 ? a + 2 * M_PI : a;
}
double AngDiff(double a, double b) { return std::remainder(a - b, 2 * M_PI); }
double Ulp(double x) { return std::nextafter(std::fabs(x), INFINITY) - std::fabs(x); }

struct Start { int y, mo, d, h, mi; double s; std::string Text() const { return Fmt("%d/%d/%d %d:%d:%.17g", y, mo, d, h, mi, s); } };
Start GetStart(const Script& s) { return {(int)s.L("year"), (int)s.L("month"), (int)s.L("day"), (int)s.L("hour"), (int)s.L("minute"), s.P("second")}; }
void GenStart(Rng& r, Script& s) {
  long y = r.Int(1980, 2079), m, d; int k = r.Int(0, 5);
  if (k == 0) { m = 12; d = 31; } else if (k == 1) { y = 1980 + 4 * r.Int(0, 24); m = 2; d = r.Int(28, 29); } else if (k == 2) { m = r.Int(1, 12); d = Dim(y, m); }
  else if (k == 3) { m = 2; d = 28; } else { m = r.Int(1, 12); d = r.Int(1, Dim(y, m)); }
  s.p["year"] = y; s.p["month"] = m; s.p["day"] = d;
  bool late = r.Chance(0.5); s.p["hour"] = late ? 23 : r.Int(0, 23); s.p["minute"] = late ? r.Int(50, 59) : r.Int(0, 59);
  s.p["second"] = r.Chance(0.5) ? r.Int(0, 59) : r.Int(0, 59999) / 1000.0;
}
// host behaviour that must not matter
void NoisyHost(const Script& s) {
  g_clock.active = true; g_clock.wall_ns = (int64_t)(s.P("host_wall", 1.7e9) * 1e9); g_clock.mono_ns = 1000000000; 
}
void HostEvent(const Event& e, Ctx& c) {
  if (e.kind == "stall") { g_clock.wall_ns += (int64_t)(e.A(0) * 1e9); g_clock.mono_ns += (int64_t)(e.A(0) * 1e9); c.Count("host stall"); }
  else if (e.kind == "walljump") { g_clock.wall_ns += (int64_t)(e.A(0) * 1e9); c.Count(e.A(0) > 0 ? "calendar clock set forward" : "calendar clock set back"); }
}

// =============================================================== T01
Script GenT01(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; GenStart(r, s);
  static const std::vector<double> steps = {0.001, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.5, 1, 2, 7, 10, 30, 60, 600, 3600};
  s.p["step"] = r.Chance(0.7) ? r.Pick(steps) : r.LogUni(1e-3, 4000);
  long n = r.Chance(0.2) ? r.Int(1, 20) : r.Int(50, thorough ? 6000 : 1500); s.p["n"] = n;
  double e; int k = r.Int(0, 4);
  if (k == 0) e = s.p["step"] * r.Int(1, n); else if (k == 1) e = s.p["step"] * (r.Int(1, n) - 0.5); else if (k == 2) e = s.p["step"] * n * r.Uni(0.1, 1.0); else e = s.p["step"] * n * 10;
  s.p["end"] = e; s.p["speed"] = r.Chance(0.7) ? 0 : -r.Uni(0.1, 3); s.p["host_wall"] = std::floor(r.Uni(1e9, 2e9));
  s.p["case"] = r.Chance(0.1);
  if (s.p["case"]) { s.p["n"] = std::min<long>(n, 60); if (s.p["end"] / s.p["step"] > 60) s.p["end"] = s.p["step"] * r.Int(5, 60); }
  int ne = r.Int(0, 6); for (int i = 0; i < ne; i++) s.Add(r.Int(1, n), r.Chance(0.5) ? "stall" : "walljump", {r.Chance(0.3) ? -r.Uni(0.1, 1e6) : r.Uni(0.1, 1e6)});
  for (auto& ev : s.ev) if (ev.kind == "stall") ev.a[0] = std::fabs(ev.a[0]);
  s.SortEvents(); return s;
}
struct T01Oracle {
  Start st; double step, end, jd0, prev = 0; long n = 0; bool finished = false; long days0; double sod0;
  T01Oracle(const Script& s) : st(GetStart(s)), step(s.P("step")), end(s.P("end")) {
    days0 = DaysFromCivil(st.y, st.mo, st.d); sod0 = st.h * 3600.0 + st.mi * 60.0 + st.s; jd0 = 2440587.5 + days0 + sod0 / 86400;
  }
  void Look(const SimulationTime& t, Ctx& c) {
    double e = t.GetElapsedTime_s();
    if (n > 0) c.Check(std::fabs(e - prev - step) <= 4 * Ulp(e), "step-size", "update %ld advanced elapsed time from %.17g by %.17g instead of %.17g", n, prev, e - prev, step);
    c.Near(e, n * step, 1e-14 * n * step + n * Ulp(e), "elapsed", Fmt("elapsed time after %ld updates of %.17g", n, step)); prev = e;
    double jt = t.GetCurrentTime_jd(); c.Near(jt, jd0 + n * step / 86400, 2e-9, "julian-date", Fmt("Julian date %.3f s after %s", e, st.Text().c_str()));
    auto u = t.GetCurrentUtc();
    bool okr = u.month >= 1 && u.month <= 12 && u.day >= 1 && (int)u.day <= Dim(u.year, u.month) && u.hour <= 23 && u.minute <= 59 && u.second >= 0 && u.second < 60;
    c.Check(okr, "calendar-range", "reported UTC %u/%u/%u %u:%u:%.9g is not a date (start %s, elapsed %.9g)", u.year, u.month, u.day, u.hour, u.minute, u.second, st.Text().c_str(), e);
    double got = (DaysFromCivil(u.year, u.month, u.day) - days0) * 86400.0 + u.hour * 3600.0 + u.minute * 60.0 + u.second - sod0;
    c.Near(got, n * step, 2e-3, "calendar", Fmt("reported UTC %u/%u/%u %u:%u:%.9g relative to start %s", u.year, u.month, u.day, u.hour, u.minute, u.second, st.Text().c_str()));
    c.Check(std::fabs(AngDiff(t.GetCurrentSiderealTime(), Gmst82(jd0 + n * step / 86400))) < 2e-6, "sidereal", "sidereal angle %.12g, expected %.12g at %.9g s after %s", t.GetCurrentSiderealTime(), Gmst82(jd0 + n * step / 86400), e, st.Text().c_str());
    c.Near(t.GetCurrentEphemerisTime(), (jd0 - 2451545.0) * 86400 + 69.184 + n * step, 2e-3, "ephemeris-time", "ephemeris time");
    double y = t.GetCurrentDecimalYear(), since = (days0 - DaysFromCivil(u.year, 1, 1)) + (sod0 + n * step) / 86400, length = (double)(DaysFromCivil(u.year + 1, 1, 1) - DaysFromCivil(u.year, 1, 1));
    c.Near(y, u.year + since / length, 1e-9, "decimal-year", Fmt("decimal year at UTC %u/%u/%u %u:%u:%.6g", u.year, u.month, u.day, u.hour, u.minute, u.second));
    double tol = 1e-12 * std::max(1.0, n * step) + 2 * n * Ulp(e);
    bool fin = t.GetState().finish;
    if (n > 0) {
      if (n * step > end + tol) c.Check(fin, "not-finished", "elapsed %.17g exceeds the duration %.17g but the run is not finished", e, end);
      if (n * step <= end - tol) c.Check(!fin, "finished-early", "elapsed %.17g does not exceed the duration %.17g but the run is finished", e, end);
    }
    c.State(Hash64(Fmt("%u-%u-%u", u.year, u.month, u.day)));
    c.Hist(e); c.Hist(jt); c.Hist(u.second);
  }
};
void RunT01(const Script& s, Ctx& c) {
  T01Oracle o(s); size_t k = 0; double step = o.step;
  if (s.P("case")) {
    Settings set(1, 0); set.Quiet(); set.AllDisturbancesOff(0);
    auto& b = set.base; b.Set("TIME", "simulation_start_time_utc", o.st.Text()).Set("TIME", "simulation_duration_s", o.end).Set("TIME", "simulation_speed_setting", s.P("speed"));
    for (const char* n : {"simulation_step_s", "attitude_update_period_s", "orbit_update_period_s", "thermal_update_period_s", "component_update_period_s", "log_output_period_s"}) b.Set("TIME", n, step);
    for (const char* n : {"attitude_integral_step_s", "orbit_integral_step_s", "thermal_integral_step_s"}) b.Set("TIME", n, step);
    set.sat[0].Enable("ORBIT", "calculation", false); 
    set.local[0].Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "DISABLE");
    NoisyHost(s); Case::Hooks h;
    h.ready = [&](Case& cs) { o.Look(cs.Time(), c); };
    h.before = [&](Case& cs, long n) { o.n = n; for (; k < s.ev.size() && s.ev[k].t <= n; k++) HostEvent(s.ev[k], c); o.Look(cs.Time(), c); if (n > 4000) c.Fail("no-end", "main loop still running after %ld steps", n); };
    Fly(set, h); double tol = 1e-12 * o.n * step + 1e-12;
    c.Check(o.n * step > o.end - tol && (o.n - 1) * step <= o.end + tol, "loop-end", "main loop stopped after %ld steps of %.17g for a duration of %.17g", o.n, step, o.end);
  } else {
    NoisyHost(s); SimulationTime t(o.end, step, step, step, step, step, step, step, step, step, o.st.Text().c_str(), s.P("speed")); t.ResetClock();
    o.Look(t, c);
    long n = s.L("n");
    for (long i = 1; i <= n; i++) { for (; k < s.ev.size() && s.ev[k].t <= i; k++) HostEvent(s.ev[k], c); t.UpdateTime(); o.n = i; o.Look(t, c); }
  }
  g_clock.active = false;
  c.Check(g_clock.sleeps == 0, "free-run-sleeps", "free-running mode slept %ld times", g_clock.sleeps);
  c.Count("clock updates", o.n); c.sim_time_s = o.n * step; c.nontrivial = true;
}

// =============================================================== T02
struct Sub { const char* name; double period; long k = 0; long last = -1; long count = 0; bool ambiguous = false; };
Script GenT02(uint64_t seed, bool thorough) {
  Rng r(seed); Script s;
  static const std::vector<double> steps = {0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.5, 1, 2};
  double step = r.Chance(0.7) ? r.Pick(steps) : r.LogUni(1e-2, 5); s.p["step"] = step;
  for (const char* n : {"attitude", "orbit", "thermal", "component", "log"}) {
    int k = r.Int(0, 3); double m = k == 0 ? 1 : k == 1 ? r.Int(1, 12) : k == 2 ? r.Int(1, 60) : r.Uni(1, 30);
    s.p[n] = std::max(step, step * m);
  }
  s.p["case"] = r.Chance(0.3); s.p["n"] = s.P("case") ? r.Int(20, 150) : r.Int(50, thorough ? 20000 : 3000);
  s.p["speed"] = r.Chance(0.3) ? r.LogUni(0.2, 20) : 0;
  for (int i = r.Int(0, 8); i > 0; i--) s.Add(r.Int(1, s.L("n")), "stall", {r.Uni(0, 0.9)});
  s.SortEvents(); return s;
}
class TickCount : public s2e::components::Component {
 public:
  TickCount(s2e::environment::ClockGenerator* g) : Component(1, g) {}
  long ticks = 0; void MainRoutine(const int) override { ticks++; }
};
void RunT02(const Script& s, Ctx& c) {
  double step = s.P("step"), end = step * (s.L("n") - 0.5);
  Sub sub[5] = {{"attitude", s.P("attitude")}, {"orbit", s.P("orbit")}, {"thermal", s.P("thermal")}, {"component", s.P("component")}, {"log", s.P("log")}};
  for (auto& q : sub) { double x = q.period / step; q.k = (long)std::ceil(x - 1e-9); if (q.k < 1) q.k = 1; q.ambiguous = std::fabs(x - std::round(x)) < 1e-8; }
  sub[4].last = 0;  // first log row at the initial time
  long skip = 0; double prev = 0; g_clock.active = true; g_clock.wall_ns = 1700000000000000000ll; g_clock.mono_ns = 5000000000ll; size_t k = 0;
  std::vector<double> log_times{0.0};
  auto look = [&](const SimulationTime& t, long n) {
    double e = t.GetElapsedTime_s(); if (std::fabs(e - prev - step) > 1e-9) skip++; prev = e;
    bool f[5] = {t.GetAttitudePropagateFlag(), t.GetOrbitPropagateFlag(), t.GetThermalPropagateFlag(), t.GetCompoUpdateFlag(), t.GetState().log_output};
    for (int i = 0; i < 5; i++) {
      Sub& q = sub[i]; long gap = n - (q.last < 0 ? 0 : q.last);
      if (f[i]) {
        if (q.last >= 0) {
          c.Check(gap == q.k || (q.ambiguous && gap == q.k + 1), std::string("spacing-") + q.name, "%s updates with period %.17g and step %.17g: triggered %ld steps after the previous one at step %ld, expected %ld", q.name, q.period, step, gap, n, q.k);
          if (q.ambiguous && gap == q.k + 1) { q.k = gap; q.ambiguous = false; } else if (q.count > 1) q.ambiguous = false;
        } else c.Check(gap <= q.k + (q.ambiguous ? 1 : 0), std::string("first-") + q.name, "first %s update at step %ld, later than one period (%ld steps)", q.name, n, q.k);
        q.last = n; q.count++; if (i == 4 && !t.GetState().finish) log_times.push_back(e);
      } else c.Check(gap < q.k + (q.ambiguous ? 1 : 0), std::string("missed-") + q.name, "%s update with period %.17g and step %.17g not triggered at step %ld (%ld steps after the previous)", q.name, q.period, step, n, gap);
    }
    c.State(Hash64(f, 5)); c.Hist(e); for (bool b : f) c.Hist((uint64_t)b);
  };
  if (!s.P("case")) {
    SimulationTime t(end, step, s.P("attitude"), step, s.P("orbit"), step, s.P("thermal"), step, s.P("component"), s.P("log"), "2020/01/01 00:00:00.0", s.P("speed")); t.ResetClock();
    c.Check(t.GetState().log_output, "first-log", "no log row is requested for the initial time");
    for (long i = 1; i <= s.L("n"); i++) { for (; k < s.ev.size() && s.ev[k].t <= i; k++) HostEvent(s.ev[k], c); t.UpdateTime(); look(t, i); }
    c.sim_time_s = prev;
  } else {
    Settings set(1, 0); set.Quiet(); set.AllDisturbancesOff(0); set.AllNoiseOff(0); auto& b = set.base;
    b.Set("TIME", "simulation_duration_s", end).Set("TIME", "simulation_step_s", step).Set("TIME", "simulation_speed_setting", s.P("speed"));
    for (int i = 0; i < 3; i++) { b.Set("TIME", Fmt("%s_update_period_s", sub[i].name), sub[i].period); b.Set("TIME", Fmt("%s_integral_step_s", sub[i].name), sub[i].period); }
    b.Set("TIME", "component_update_period_s", s.P("component")).Set("TIME", "log_output_period_s", s.P("log"));
    set.local[0].Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "DISABLE");
    set.sat[0].Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", {1e-3, 2e-3, -1.5e-3});
    TickCount* tick = nullptr; Case::Hooks h; V3 pos; double q0 = 0; long ticks = 0;
    h.build = [&](Craft& cr, Parts& p) { auto t = std::make_shared<TickCount>(&cr.Clock()); tick = t.get(); p.owned.push_back(t); };
    h.before = [&](Case& cs, long n) {
      for (; k < s.ev.size() && s.ev[k].t <= n; k++) HostEvent(s.ev[k], c);
      look(cs.Time(), n); pos = cs.craft[0]->GetDynamics().GetOrbit().GetPosition_i_m(); q0 = cs.craft[0]->GetDynamics().GetAttitude().GetQuaternion_i2b()[0]; ticks = tick->ticks;
    };
    h.after = [&](Case& cs, long n) {
      bool oc = Norm(cs.craft[0]->GetDynamics().GetOrbit().GetPosition_i_m() - pos) > 0, ac = cs.craft[0]->GetDynamics().GetAttitude().GetQuaternion_i2b()[0] != q0;
      c.Check(oc == (sub[1].last == n), "orbit-update-applied", "step %ld: orbit %s although its update is %sdue", n, oc ? "moved" : "did not move", oc ? "not " : "");
      c.Check(ac == (sub[0].last == n), "attitude-update-applied", "step %ld: attitude %s although its update is %sdue", n, ac ? "moved" : "did not move", ac ? "not " : "");
      c.Check(tick->ticks - ticks == (sub[3].last == n), "component-tick-applied", "step %ld: component ran %ld times, update %sdue", n, tick->ticks - ticks, sub[3].last == n ? "" : "not ");
    };
    Fly(set, h);
    c.sim_time_s = prev;
    // logged sample times
    std::string file; for (auto& f : ListTree("logs")) if (f.size() > 4 && f.substr(f.size() - 4) == ".csv") file = "logs/" + f;
    c.Check(!file.empty(), "log-file", "no log file was written");
    std::istringstream is(ReadFile(file)); std::string line; long row = -1;
    while (std::getline(is, line)) {
      if (++row == 0) { c.Check(line.compare(0, 12, "elapsed_time") == 0, "log-header", "first column of the log header is %.40s", line.c_str()); continue; }
      double t = strtod(line.c_str(), nullptr);
      c.Check(row <= (long)log_times.size() && std::fabs(t - log_times[row - 1]) <= 1e-5 * std::max(1.0, std::fabs(t)), "log-sample-times", "log row %ld is for t=%.9g, expected %.9g", row, t, row <= (long)log_times.size() ? log_times[row - 1] : NAN);
    }
    c.Check(row == (long)log_times.size(), "log-row-count", "log has %ld rows, %zu samples were triggered", row, log_times.size());
  }
  g_clock.active = false; c.Count("time skips after stalls", skip); c.nontrivial = true;
}

// =============================================================== T03
Script GenT03(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["step"] = r.Pick<double>({0.01, 0.02, 0.05, 0.1, 0.2, 0.25, 0.5, 1.0, 2.0, 5.0});
  s.p["speed"] = r.Chance(0.4) ? 1 : r.LogUni(0.1, 40); s.p["n"] = r.Int(20, thorough ? 2000 : 400);
  s.p["load"] = r.Uni(0, 0.8);             // nominal execution time as a fraction of the available host time
  s.p["oversleep_ms"] = r.Chance(0.5) ? 0 : r.Uni(0, 5); s.p["setup_ms"] = r.Chance(0.5) ? r.Uni(0, 50) : r.Uni(0, 3000);
  s.p["mono0"] = r.Chance(0.3) ? 0 : std::floor(r.Uni(0, 1e7)); s.p["wall0"] = std::floor(r.Uni(1e9, 2e9));
  s.p["calm"] = r.Chance(0.2);
  if (!s.P("calm")) for (int i = r.Int(1, 10); i > 0; i--) {
    long t = r.Int(1, s.L("n")); int k = r.Int(0, 5);
    if (k == 0) s.Add(t, "stall", {r.Uni(0.0, 0.9)}); else if (k == 1) s.Add(t, "stall", {r.Uni(1.1, 20)}); else if (k == 2) s.Add(t, "walljump", {r.Uni(0.5, 1e5)});
    else if (k == 3) s.Add(t, "walljump", {-r.Uni(0.5, 1e5)}); else if (k == 4) s.Add(t, "slow", {(double)r.Int(2, 30), r.Uni(1.0, 3.0)}); else s.Add(t, "eintr", {r.Uni(0, 1)});
  }
  s.SortEvents(); return s;
}
void RunT03(const Script& s, Ctx& c) {
  double step = s.P("step"), speed = s.P("speed"); long n = s.L("n");
  g_clock.active = true; g_clock.wall_ns = (int64_t)(s.P("wall0") * 1e9); g_clock.mono_ns = (int64_t)(s.P("mono0") * 1e9) + 1000000;
  SimulationTime t(1e9, step, step, step, step, step, step, step, step, step, "2021/03/04 05:06:07.0", speed);
  auto run = [](double sec) { g_clock.wall_ns += (int64_t)(sec * 1e9); g_clock.mono_ns += (int64_t)(sec * 1e9); };
  run(s.P("setup_ms") / 1e3);
  t.ResetClock(); int64_t origin = g_clock.mono_ns, in_time = origin; bool eintr = false; double eintr_frac = 0; bool slept = false; int64_t slept_from = 0, slept_for = 0;
  g_clock.on_sleep = [&](int64_t req) -> int64_t {
    slept = true; slept_from = g_clock.mono_ns; slept_for = req;
    if (eintr) { eintr = false; c.Count("interrupted sleep"); return (int64_t)(req * eintr_frac); }
    return req + (int64_t)(s.P("oversleep_ms") * 1e6);
  };
  auto host = [&]() { return (g_clock.mono_ns - origin) * 1e-9; };
  size_t k = 0; long slow_left = 0; double slow_factor = 1, prev = 0; double bound = 2 * step + (0.003 + 2 * s.P("oversleep_ms") / 1e3) * std::max(1.0, speed);
  long quiet = 0;
  for (long i = 1; i <= n; i++) {
    for (; k < s.ev.size() && s.ev[k].t <= i; k++) {
      const Event& e = s.ev[k]; HostEvent(e, c);
      if (e.kind == "slow") { slow_left = e.I(0); slow_factor = e.A(1); c.Count("slow host phase"); }
      if (e.kind == "eintr") { eintr = true; eintr_frac = e.A(0); }
      if (e.kind == "stall") quiet = 0;
    }
    double load = s.P("load") * step / speed; if (slow_left > 0) { slow_left--; load = slow_factor * step / speed; quiet = 0; }
    run(load);
    slept = false; int64_t call = g_clock.mono_ns; t.UpdateTime();
    double e = t.GetElapsedTime_s(), h = (call - origin) * 1e-9, ahead = prev + step - h * speed;  // lead of the new simulated time over the host at the call
    c.Check(e >= prev, "time-runs-backwards", "simulated time went from %.9g to %.9g at step %ld", prev, e, i);
    bool jumped = std::fabs(e - prev - step) > 1e-9;
    if (ahead > 0.002 * (1 + speed)) {  // host keeps up: wait, never skip
      c.Check(!jumped, "skip-while-on-time", "step %ld: simulated time jumped from %.9g to %.9g although the host was on time (host %.6f s x %.3g)", i, prev, e, h, speed);
      c.Check(slept, "no-wait", "step %ld: simulated time %.9g is %.6f s ahead of the host and no waiting took place", i, e, ahead);
      in_time = g_clock.mono_ns;
    } else if (ahead < -0.002 * (1 + speed)) {  // late
      c.Check(!slept, "wait-while-late", "step %ld: slept %.6f s although simulated time lags by %.6f s", i, slept_for * 1e-9, -ahead);
      double late = (call - in_time) * 1e-9;
      if (late < 0.995) c.Check(!jumped, "skip-after-short-delay", "step %ld: simulated time jumped from %.9g to %.9g although the last step completed in time only %.4f s ago", i, prev, e, late);
      if (late > 1.005) {
        c.Check(jumped || std::fabs(h * speed - e) < bound, "no-catch-up", "step %ld: %.4f s after the last step in time the simulated time %.9g is not brought back to host time %.9g", i, late, e, h * speed);
        if (jumped) { c.Near(e, h * speed, 0.004 * std::max(1.0, speed), "catch-up-target", Fmt("simulated time after catching up at step %ld", i)); in_time = call; c.Count("catch-up"); }
      }
      if (jumped && late <= 1.005) in_time = call;
    } else if (slept) in_time = g_clock.mono_ns; else if (jumped) in_time = call;
    // pacing: with the host on time for a while, simulated time tracks host time
    if (slow_left == 0) quiet++;
    double lag = e - host() * speed;
    if (ahead > -0.002) c.Check(lag <= bound, "runs-ahead", "step %ld: simulated time %.9g is ahead of host time %.9g by more than %.4f", i, e, host() * speed, bound);
    if (s.P("calm") || quiet > 200 + 40 / (step * (1 - s.P("load")))) {
      c.Probe("tracking");
      c.Check(std::fabs(lag) <= bound, "tracking", "step %ld: simulated time %.9g, host time x speed %.9g, difference above %.4f", i, e, host() * speed, bound);
    }
    // a single call never blocks longer than the lead it has to wait off
    double blocked = (g_clock.mono_ns - call) * 1e-9;
    c.Check(blocked <= std::max(0.0, ahead) / speed + 0.01 + s.P("oversleep_ms") / 1e3, "freeze", "step %ld: the update blocked for %.6f s while simulated time was %.6f s ahead at speed %.3g", i, blocked, ahead, speed);
    c.State((uint64_t)(jumped * 2 + slept) + 4 * (uint64_t)std::min(50.0, std::max(0.0, (call - in_time) * 1e-8)));
    c.Hist(e); c.Hist((uint64_t)g_clock.mono_ns); prev = e;
  }
  g_clock.active = false; c.sim_time_s = prev; c.nontrivial = !s.P("calm"); c.Count("sleeps", g_clock.sleeps);
}

Registrar t01{[] { Property p; p.id = "T01"; p.generate = GenT01; p.execute = RunT01; p.quick_runs = 6000; p.thorough_runs = 200000;
  p.simple = {{"speed", 0}, {"case", 0}, {"second", 0}}; p.states_measure = "distinct calendar days reported by the clock";
  p.real = "SimulationTime, sgp4 calendar routines, SimulationCase main loop (10% of runs)"; p.stub = "host clock, CSPICE str2et"; p.level_note = "host clock reads and sleeps only through libc; years 1980-2099"; return p; }()};
Registrar t02{[] { Property p; p.id = "T02"; p.generate = GenT02; p.execute = RunT02; p.quick_runs = 5000; p.thorough_runs = 100000;
  p.simple = {{"speed", 0}, {"case", 0}}; p.states_measure = "distinct combinations of update flags"; p.real = "SimulationTime, SimulationCase, Spacecraft, ClockGenerator, Logger";
  p.stub = "host clock, CSPICE"; p.level_note = "a period within 1e-8 of a whole number of steps may be rounded either way"; return p; }()};
Registrar t03{[] { Property p; p.id = "T03"; p.generate = GenT03; p.execute = RunT03; p.quick_runs = 8000; p.thorough_runs = 300000;
  p.simple = {{"oversleep_ms", 0}, {"setup_ms", 0}, {"speed", 1}, {"load", 0}}; p.states_measure = "distinct (waited, jumped, time since last in-time step) situations";
  p.real = "SimulationTime"; p.stub = "host clock, nanosleep"; p.level_note = "steps of 10 ms and more; pacing bound: a few steps times max(speed, 1/speed)"; return p; }()};
}  // namespace
