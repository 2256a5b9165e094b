// Monte-Carlo campaigns: draws follow the configured distribution and the seed, cases are counted, and what a case does is independent of the
// other cases of the process (completed, aborted, of another campaign).
#include <math_physics/randomization/global_randomization.hpp>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
#include <simulation/monte_carlo_simulation/simulation_object.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include "world/child.hpp"
#include "world/mission.hpp"
using namespace sim;
using namespace s2e::simulation;
namespace {
const char* kTypes[] = {"NoRandomization", "CartesianUniform", "CartesianNormal", "CircularNormalUniform", "CircularNormalNormal", "SphericalNormalUniformUniform", "SphericalNormalNormal", "QuaternionUniform", "QuaternionNormal"};
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["mode"] = r.Chance(0.35); s.p["mcseed"] = (double)r.Int(0, 2000000000);
  if (s.p["mode"]) {  // draws
    long n = r.Int(1, 5); s.p["params"] = n; s.p["draws"] = thorough ? 8000 : 2500; s.p["enable"] = r.Chance(0.85); s.p["cases"] = (double)(r.Chance(0.2) ? r.Int(0, 2) : r.Int(2, 40));
    for (long k = 0; k < n; k++) {
      int t = (int)r.Int(0, 8); double a[3], b[3];
      for (int i = 0; i < 3; i++) { a[i] = r.Uni(-10, 10); b[i] = t == 1 ? a[i] + r.LogUni(1e-3, 20) : r.LogUni(1e-4, 5); }
      if (t == 3 || t == 4 || t == 5) { a[0] = r.LogUni(0.1, 1e4); b[0] = a[0] * r.Uni(0.001, 0.1); }
      if (t == 3) { a[1] = r.Uni(-3, 3); b[1] = a[1] + r.Uni(0.05, 3); }
      if (t == 4) { a[1] = r.Uni(-3, 3); b[1] = r.Uni(0.01, 0.35); }
      if (t == 5) { a[1] = r.Uni(0, 1.5); b[1] = r.Uni(a[1] + 0.1, 3.14); a[2] = r.Uni(-3, 3); b[2] = a[2] + r.Uni(0.05, 3); }
      if (t == 6) { double l = r.LogUni(0.1, 100); V3 d = r.Chance(0.2) ? Vec(1, 0, 0) : r.Chance(0.2) ? Vec(0, 1, 0) : RandDir(r); for (int i = 0; i < 3; i++) a[i] = l * d[i]; b[0] = l * r.Uni(0.001, 0.1); b[1] = r.Uni(0.01, 0.35); }
      if (t == 8) b[0] = r.Uni(0.01, 0.6);
      s.p[Fmt("k%ld.type", k)] = t; for (int i = 0; i < 3; i++) { s.p[Fmt("k%ld.a%d", k, i)] = a[i]; s.p[Fmt("k%ld.b%d", k, i)] = b[i]; }
    }
    return s;
  }
  MissionOpt o; o.max_craft = 2; o.max_steps = thorough ? 60 : 20; o.ground = true; GenMission(r, s, o);
  s.p["cases"] = (double)r.Int(2, thorough ? 7 : 4); s.p["enable"] = r.Chance(0.85); s.p["log"] = r.Chance(0.8); s.p["target"] = (double)r.Int(0, (long)s.p["cases"] - 1);
  s.p["other"] = (double)r.Int(1, 1000000000); s.p["randq"] = (double)r.Int(0, 3); s.p["randw"] = (double)r.Int(0, 3); s.p["hist_host"] = r.Chance(0.5);
  for (long k = 0; k < (long)s.p["cases"]; k++) {
    if (r.Chance(0.35)) s.Add(k + 1000, "abort", {(double)k, (double)r.Int(0, s.L("steps"))});
    if (r.Chance(0.3)) s.Add(k + 1000, "foreign", {(double)k, (double)r.Int(1, 1000000000), r.Chance(0.3) ? (double)r.Int(0, 6) : -1.0});
  }
  if (r.Chance(0.3)) s.Add(2000, "again", {});
  return s;
}
// ---- draws
struct Mo { double n = 0, s = 0, s2 = 0; void Add(double x) { n++; s += x; s2 += x * x; } double Mean() const { return s / n; } double Var() const { return s2 / n - Mean() * Mean(); } };
struct Tester {
  Ctx& c; const std::string name; double k = 8;
  void Mean(const Mo& m, double want, double sd, const char* what) { double tol = k * sd / std::sqrt(m.n) + 1e-9 * (std::fabs(want) + sd); c.Check(std::fabs(m.Mean() - want) <= tol, "distribution", "%s: mean of %s over %.0f draws is %.6g, expected %.6g +- %.2g", name.c_str(), what, m.n, m.Mean(), want, tol); c.Probe("moments tested"); }
  // variance of a quantity whose fourth standardised moment is kurt
  void Sd(const Mo& m, double sd, double kurt, const char* what) { double tol = k * sd * sd * std::sqrt(std::max(kurt - 1, 0.2) / m.n) + 1e-9; c.Check(std::fabs(m.Var() - sd * sd) <= tol, "distribution", "%s: variance of %s over %.0f draws is %.6g, expected %.6g +- %.2g", name.c_str(), what, m.n, m.Var(), sd * sd, tol); c.Probe("moments tested"); }
};
double Wrap(double a, double ref) { while (a < ref) a += 2 * M_PI; while (a >= ref + 2 * M_PI) a -= 2 * M_PI; return a; }
std::string McSection(const Script& s) {
  std::string o = Fmt("[MONTE_CARLO_EXECUTION]\nmonte_carlo_enable = %s\nlog_enable = ENABLE\nnumber_of_executions = %ld\n[MONTE_CARLO_RANDOMIZATION]\n", s.P("enable") ? "ENABLE" : "DISABLE", s.L("cases"));
  for (long k = 0; k < s.L("params"); k++) {
    o += Fmt("parameter(%ld) = obj%ld.par\nobj%ld.par.randomization_type = %s\n", k, k, k, kTypes[s.L(Fmt("k%ld.type", k))]);
    for (int i = 0; i < 3; i++) o += Fmt("obj%ld.par.mean_or_min(%d) = %.17g\nobj%ld.par.sigma_or_max(%d) = %.17g\n", k, i, s.P(Fmt("k%ld.a%d", k, i)), k, i, s.P(Fmt("k%ld.b%d", k, i)));
  }
  return o;
}
struct Target : SimulationObject {
  Target(const std::string& n, int type) : SimulationObject(n), t(type) {}
  int t; V3 v = Vec(7, 8, 9); double d = 5; Quat q{0.5, -0.5, 0.5, 0.5}; s2e::math::Vector<2> v2{4.0};
  void SetParameters(const MonteCarloSimulationExecutor& mc) override {
    if (t >= 7) GetInitializedMonteCarloParameterQuaternion(mc, "par", q);
    else if (t == 3 || t == 4) GetInitializedMonteCarloParameterVector(mc, "par", v2);
    else GetInitializedMonteCarloParameterVector(mc, "par", v);
    if (t < 7) GetInitializedMonteCarloParameterDouble(mc, "par", d);
  }
  std::vector<double> All() const { return {v[0], v[1], v[2], d, q[0], q[1], q[2], q[3], v2[0], v2[1]}; }
};
void Draws(const Script& s, Ctx& c) {
  WriteFile("mc.ini", McSection(s));
  std::unique_ptr<MonteCarloSimulationExecutor> mc(InitMonteCarloSimulation("mc.ini")); long n = s.L("params"), want_cases = s.P("enable") ? s.L("cases") : 1, N = s.L("draws");
  std::vector<std::unique_ptr<Target>> t; for (long k = 0; k < n; k++) t.emplace_back(new Target(Fmt("obj%ld", k), (int)s.L(Fmt("k%ld.type", k))));
  Target alone("unlisted", 0);
  long ran = 0; while (mc->WillExecuteNextCase() && ran < want_cases + 5) { ran++; mc->RandomizeAllParameters(); SimulationObject::SetAllParameters(*mc); mc->AtTheBeginningOfEachCase(); mc->AtTheEndOfEachCase(); c.Check((long)mc->GetNumberOfExecutionsDone() == ran, "count", "%ld executions reported after %ld cases", (long)mc->GetNumberOfExecutionsDone(), ran); }
  c.Check(ran == want_cases, "count", "%ld cases were executed, %ld configured", ran, want_cases);
  mc->SetTotalNumberOfExecutions(N + ran);
  std::vector<std::vector<std::vector<double>>> rec(n);
  for (int pass = 0; pass < 2; pass++) {
    MonteCarloSimulationExecutor::SetSeed((unsigned long)s.P("mcseed"), true);
    std::vector<std::vector<double>> prev(n);
    for (long i = 0; i < (pass ? std::min(N, 300l) : N); i++) {
      mc->RandomizeAllParameters(); SimulationObject::SetAllParameters(*mc);
      for (long k = 0; k < n; k++) {
        auto a = t[k]->All(); if (!pass) rec[k].push_back(a); else c.Check(a == rec[k][i], "replay", "draw %ld of parameter %ld (%s) differs when the campaign is repeated with the same seed", i + 1, k, kTypes[t[k]->t]);
      }
    }
    c.Check(alone.All() == Target("x", 0).All(), "untouched", "an object that is not listed for randomisation was changed");
    if (!pass) { for (int j = 0; j < (int)(s.L("mcseed") % 7); j++) mc->RandomizeAllParameters(); }
  }
  std::vector<double> base = Target("x", 0).All();
  for (long k = 0; k < n; k++) {
    int ty = t[k]->t; Tester T{c, Fmt("parameter %ld, %s", k, kTypes[ty])}; auto A = [&](int i) { return s.P(Fmt("k%ld.a%d", k, i)); }; auto B = [&](int i) { return s.P(Fmt("k%ld.b%d", k, i)); };
    auto& R = rec[k]; for (auto& x : R) for (double y : x) c.Check(std::isfinite(y), "finite", "%s produced a value that is not finite", T.name.c_str());
    if (ty == 0 || !s.P("enable")) {
      for (auto& x : R) for (int i = 0; i < 10; i++) c.Check(std::fabs(x[i] - base[i]) < 1e-12, "untouched", "%s: value %d changed to %.17g although nothing is randomised", T.name.c_str(), i, x[i]);
      c.Probe("untouched"); continue;
    }
    c.Count(Fmt("draws %s", kTypes[ty]), (double)R.size());
    for (auto& x : R) { double nq = x[4] * x[4] + x[5] * x[5] + x[6] * x[6] + x[7] * x[7]; c.Check(std::fabs(nq - 1) < 1e-9, "unit", "%s drew a quaternion of norm^2 %.12g", T.name.c_str(), nq); }
    if (ty < 7) for (auto& x : R) c.Check(x[3] == (ty == 3 || ty == 4 ? x[8] : x[0]), "scalar", "%s: the scalar and the first element of the same draw differ", T.name.c_str());
    // lag-one and cross correlation of the raw outputs
    auto comp = [&](const std::vector<double>& x, int i) { return ty >= 7 ? x[4 + i] : ty == 3 || ty == 4 ? x[8 + i] : x[i]; }; int dim = ty >= 7 ? 4 : ty == 3 || ty == 4 ? 2 : 3;
    for (int i = 0; i < dim; i++) {
      Mo m; for (auto& x : R) m.Add(comp(x, i)); double mu = m.Mean(), v = m.Var(), l = 0; for (size_t j = 1; j < R.size(); j++) l += (comp(R[j], i) - mu) * (comp(R[j - 1], i) - mu);
      if (v > 1e-18 * (mu * mu + 1)) c.Check(std::fabs(l / R.size() / v) < 9 / std::sqrt((double)R.size()), "independence", "%s: successive draws of component %d are correlated (%.3f)", T.name.c_str(), i, l / R.size() / v);
      else c.Check(false, "distribution", "%s: component %d never varies", T.name.c_str(), i);
    }
    if (ty == 1 || ty == 2) for (int i = 0; i < 3; i++) {
      Mo m; for (auto& x : R) { m.Add(x[i]); if (ty == 1) c.Check(x[i] >= A(i) - 1e-9 && x[i] <= B(i) + 1e-9, "bounds", "%s: %.12g is outside [%g, %g]", T.name.c_str(), x[i], A(i), B(i)); }
      if (ty == 1) { T.Mean(m, (A(i) + B(i)) / 2, (B(i) - A(i)) / std::sqrt(12.0), "component"); T.Sd(m, (B(i) - A(i)) / std::sqrt(12.0), 1.8, "component"); } else { T.Mean(m, A(i), B(i), "component"); T.Sd(m, B(i), 3, "component"); }
      for (int j = 0; j < i; j++) { Mo mi, mj; double cc = 0; for (auto& x : R) { mi.Add(x[i]); mj.Add(x[j]); } for (auto& x : R) cc += (x[i] - mi.Mean()) * (x[j] - mj.Mean()); cc /= R.size() * std::sqrt(mi.Var() * mj.Var()); c.Check(std::fabs(cc) < 9 / std::sqrt((double)R.size()), "independence", "%s: components %d and %d are correlated (%.3f)", T.name.c_str(), j, i, cc); }
    }
    if (ty == 3 || ty == 4) {
      Mo mr, mt; double mid = ty == 3 ? (A(1) + B(1)) / 2 : A(1);
      for (auto& x : R) { double rr = std::hypot(x[8], x[9]), th = Wrap(std::atan2(x[9], x[8]), mid - M_PI); mr.Add(rr); mt.Add(th); if (ty == 3) c.Check(th >= A(1) - 1e-9 && th <= B(1) + 1e-9, "bounds", "%s: angle %.12g is outside [%g, %g]", T.name.c_str(), th, A(1), B(1)); }
      T.Mean(mr, A(0), B(0), "radius"); T.Sd(mr, B(0), 3, "radius");
      if (ty == 3) { T.Mean(mt, mid, (B(1) - A(1)) / std::sqrt(12.0), "angle"); T.Sd(mt, (B(1) - A(1)) / std::sqrt(12.0), 1.8, "angle"); } else { T.Mean(mt, mid, B(1), "angle"); T.Sd(mt, B(1), 3, "angle"); }
    }
    if (ty == 5) {
      Mo mr, mc_, mp; double mid = (A(2) + B(2)) / 2, c1 = std::cos(B(1)), c2 = std::cos(A(1));
      for (auto& x : R) { double rr = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), ct = x[2] / rr, ph = Wrap(std::atan2(x[1], x[0]), mid - M_PI); mr.Add(rr); mc_.Add(ct); mp.Add(ph);
        c.Check(ct >= c1 - 1e-9 && ct <= c2 + 1e-9, "bounds", "%s: polar angle %.12g is outside [%g, %g]", T.name.c_str(), std::acos(ct), A(1), B(1));
        if (std::hypot(x[0], x[1]) > 1e-6 * rr) c.Check(ph >= A(2) - 1e-8 && ph <= B(2) + 1e-8, "bounds", "%s: azimuth %.12g is outside [%g, %g]", T.name.c_str(), ph, A(2), B(2)); }
      T.Mean(mr, A(0), B(0), "radius"); T.Sd(mr, B(0), 3, "radius"); T.Mean(mc_, (c1 + c2) / 2, (c2 - c1) / std::sqrt(12.0), "cosine of the polar angle"); T.Sd(mc_, (c2 - c1) / std::sqrt(12.0), 1.8, "cosine of the polar angle");
      T.Mean(mp, mid, (B(2) - A(2)) / std::sqrt(12.0), "azimuth"); T.Sd(mp, (B(2) - A(2)) / std::sqrt(12.0), 1.8, "azimuth");
    }
    if (ty == 6) {
      V3 mean = Vec(A(0), A(1), A(2)); double l = Norm(mean); V3 u = (1 / l) * mean, e1 = s2e::math::OuterProduct(u, std::fabs(u[0]) < 0.7 ? Vec(1, 0, 0) : Vec(0, 1, 0)); e1 = (1 / Norm(e1)) * e1; V3 e2 = s2e::math::OuterProduct(u, e1);
      Mo mr, ma, m1, m2; for (auto& x : R) { V3 v = Vec(x[0], x[1], x[2]); double rr = Norm(v), ca = dot(v, u) / rr, p1 = dot(v, e1) / rr, p2 = dot(v, e2) / rr, ang = std::atan2(std::hypot(p1, p2), ca), sc = std::hypot(p1, p2) > 0 ? ang / std::hypot(p1, p2) : 1; mr.Add(rr); ma.Add(ang * ang); m1.Add(p1 * sc); m2.Add(p2 * sc); }
      T.Mean(mr, l, B(0), "length"); T.Sd(mr, B(0), 3, "length"); T.Mean(ma, B(1) * B(1), B(1) * B(1) * std::sqrt(2.0), "squared deviation angle");
      for (auto* m : {&m1, &m2}) { T.Mean(*m, 0, B(1) / std::sqrt(2.0), "deviation along one perpendicular direction"); T.Sd(*m, B(1) / std::sqrt(2.0), 4.5, "deviation along one perpendicular direction"); }
    }
    if (ty == 7) for (int i = 0; i < 4; i++) for (int j = 0; j <= i; j++) { Mo m; for (auto& x : R) m.Add(x[4 + i] * x[4 + j]); T.Mean(m, i == j ? 0.25 : 0, i == j ? 0.25 : std::sqrt(1 / 24.0), Fmt("q%d*q%d", i, j).c_str()); }
    if (ty == 8) {
      Mo ma; Mo mo[3][3]; for (auto& x : R) { double w = x[7], sn = std::sqrt(x[4] * x[4] + x[5] * x[5] + x[6] * x[6]), ang = 2 * std::atan2(sn, std::fabs(w)); ma.Add(ang * ang); if (sn > 0) for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) mo[i][j].Add(x[4 + i] * x[4 + j] / (sn * sn)); }
      T.Mean(ma, B(0) * B(0), B(0) * B(0) * std::sqrt(2.0), "squared rotation angle");
      for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) T.Mean(mo[i][j], i == j ? 1 / 3.0 : 0, 0.32, "rotation axis product");
    }
  }
  // two parameters never share draws
  for (long a = 0; a < n; a++) for (long b = 0; b < a; b++) {
    int ta = t[a]->t, tb = t[b]->t; if (!s.P("enable") || !ta || !tb) continue; int ia = ta >= 7 ? 4 : ta == 3 || ta == 4 ? 8 : 0, ib = tb >= 7 ? 4 : tb == 3 || tb == 4 ? 8 : 0;
    Mo x, y; double cc = 0; for (long i = 0; i < N; i++) { x.Add(rec[a][i][ia]); y.Add(rec[b][i][ib]); } for (long i = 0; i < N; i++) cc += (rec[a][i][ia] - x.Mean()) * (rec[b][i][ib] - y.Mean());
    cc /= N * std::sqrt(x.Var() * y.Var()) + 1e-300; c.Check(std::fabs(cc) < 9 / std::sqrt((double)N), "independence", "the draws of two parameters (%s, %s) are correlated (%.3f)", kTypes[tb], kTypes[ta], cc);
  }
  // unseeded campaigns differ
  for (auto& R : rec) for (size_t i = 0; i < R.size(); i += 50) for (double v : R[i]) c.Hist(v);
  uint64_t st = 1; for (auto& x : t) st = st * 9 + x->t; c.State(st * 2 + (s.P("enable") != 0)); c.nontrivial = true;
}
// ---- campaigns of whole simulations
struct Abort {};
void WriteMission(const Script& s, long n, const std::string& logdir) {
  Settings st = MissionSettings(s, AllDefs(s)); auto& b = st.base; b.items.erase(std::remove_if(b.items.begin(), b.items.end(), [](const Ini::Item& i) { return i.sec.compare(0, 11, "MONTE_CARLO") == 0; }), b.items.end());
  const char *E = "MONTE_CARLO_EXECUTION", *M = "MONTE_CARLO_RANDOMIZATION"; b.Enable(E, "monte_carlo_enable", s.P("enable")).Enable(E, "log_enable", s.P("log")).Set(E, "number_of_executions", (double)n); b.Set("SIMULATION_SETTINGS", "log_file_save_directory", logdir + "/");
  int k = 0;
  for (int d = 0; d < s.L("n"); d++) {
    if ((s.L("randw") >> d) & 1) { b.Set(M, Fmt("parameter(%d)", k++), Fmt("attitude%d.angular_velocity_b_rad_s", d)).Set(M, Fmt("attitude%d.angular_velocity_b_rad_s.randomization_type", d), d ? "CartesianUniform" : "CartesianNormal"); for (int i = 0; i < 3; i++) b.Set(M, Fmt("attitude%d.angular_velocity_b_rad_s.mean_or_min(%d)", d, i), d ? -0.02 : 0.01).Set(M, Fmt("attitude%d.angular_velocity_b_rad_s.sigma_or_max(%d)", d, i), 0.02); }
    if ((s.L("randq") >> d) & 1) { b.Set(M, Fmt("parameter(%d)", k++), Fmt("attitude%d.quaternion_i2b", d)).Set(M, Fmt("attitude%d.quaternion_i2b.randomization_type", d), d ? "QuaternionNormal" : "QuaternionUniform"); for (int i = 0; i < 3; i++) b.Set(M, Fmt("attitude%d.quaternion_i2b.mean_or_min(%d)", d, i), 0.0).Set(M, Fmt("attitude%d.quaternion_i2b.sigma_or_max(%d)", d, i), 0.3); }
  }
  st.Write(); WriteGravityFiles();
}
struct CaseOut { std::vector<double> rows, start; std::string log; bool done = false, leaked = false; };
CaseOut OneCase(const Script& s, MonteCarloSimulationExecutor& mc, const std::string& logdir, long abort_at, long salt) {
  CaseOut o; WriteMission(s, s.L("cases", 1), logdir); s2e::randomization::global_randomization.SetSeed(s.L("seed", 1) + 7919 * salt);
  Mission m(s, AllDefs(s));
  m.after = [&](Case& c, long) { Row w; for (size_t i = 0; i < c.craft.size(); i++) { SampleTruth(*c.craft[i], w); SampleField(*c.craft[i], w); SampleParts(*m.kits[i], w); } w.D("t", c.Time().GetElapsedTime_s()); o.rows.insert(o.rows.end(), w.v.begin(), w.v.end()); };
  m.before = [&](Case&, long step) { if (abort_at > 0 && step == abort_at) throw Abort(); };
  m.ready = [&](Case&) { if (abort_at == 0) throw Abort(); };
  mkdir(logdir.c_str(), 0755);
  try {
    Case c(m.Hooks(), true, mc, logdir + "/"); c.Initialize();
    mc.RandomizeAllParameters(); SimulationObject::SetAllParameters(mc);
    Row w; for (auto& x : c.craft) { w.V("w", x->Dyn().GetAttitude().GetAngularVelocity_b_rad_s()); w.Q("q", x->Dyn().GetAttitude().GetQuaternion_i2b()); w.V("p", x->Dyn().GetOrbit().GetPosition_i_m()); } o.start = w.v;
    mc.AtTheBeginningOfEachCase(); c.Main(); o.done = true;
  } catch (Abort&) { if (abort_at == 0) mc.RandomizeAllParameters(); }
  mc.AtTheEndOfEachCase();
  Real real; for (auto& f : ListTree(logdir)) if (f.size() > 4 && f.substr(f.size() - 4) == ".csv") o.log += ReadFile(logdir + "/" + f);
  if (!o.done) o.log.clear();
  return o;
}
void Put(std::string& b, const CaseOut& o) { PutBlob(b, Bytes(o.rows)); PutBlob(b, Bytes(o.start)); PutBlob(b, o.log); PutBlob(b, o.done ? "1" : "0"); }
CaseOut Get(const std::string& b, size_t& p) { CaseOut o; o.rows = Doubles(GetBlob(b, p)); o.start = Doubles(GetBlob(b, p)); o.log = GetBlob(b, p); o.done = GetBlob(b, p) == "1"; return o; }
void Campaign(const Script& s, Ctx& c) {
  long N = s.L("cases"), want = s.P("enable") ? N : 1, target = std::min(s.L("target"), want - 1); bool again = false; for (auto& e : s.ev) again = again || e.kind == "again";
  auto abort_of = [&](long k) { for (auto& e : s.ev) if (e.kind == "abort" && e.I(0) == k) return (long)e.I(1); return -1l; };
  auto hist = InChild([&] {
    mkdir("h", 0755); if (chdir("h")) _exit(94); HostNoise{s.P("hist_host") ? (uint64_t)s.P("other") : 0}.Apply(); std::string out; WriteMission(s, N, "logs");
    for (int pass = 0; pass < (again ? 2 : 1); pass++) {
      std::unique_ptr<MonteCarloSimulationExecutor> mc(InitMonteCarloSimulation(Settings::BaseFile())); MonteCarloSimulationExecutor::SetSeed((unsigned long)s.P("mcseed"), true); long k = 0; std::string blob;
      while (mc->WillExecuteNextCase() && k < N + 3) {
        for (auto& e : s.ev) if (e.kind == "foreign" && e.I(0) == k) {  // a case of another mission, without random parameters, in the same process
          Rng r((uint64_t)e.A(1)); Script o; MissionOpt mo; mo.max_craft = 2; mo.max_steps = 12; GenMission(r, o, mo); o.p["enable"] = 0; WriteMission(o, 1, "logs");
          std::unique_ptr<MonteCarloSimulationExecutor> mo_(InitMonteCarloSimulation(Settings::BaseFile())); OneCase(o, *mo_, Fmt("logs/x%d_%ld", pass, k), (long)e.A(2), k + 50);
        }
        Put(blob, OneCase(s, *mc, Fmt("logs/c%d_%ld", pass, k), abort_of(k), k)); k++;
      }
      PutBlob(out, Fmt("%ld", k)); PutBlob(out, blob);
    }
    return out;
  });
  if (!hist.ok) c.Fail("campaign-aborted", "the campaign %s", hist.why.c_str());
  size_t p = 0; std::vector<CaseOut> H, H2; long ran = atol(GetBlob(hist.out, p).c_str()); std::string b = GetBlob(hist.out, p); size_t q = 0; for (long k = 0; k < ran; k++) H.push_back(Get(b, q));
  c.Check(ran == want, "count", "%ld cases were executed, %ld configured", ran, want);
  auto fresh = InChild([&] {
    mkdir("f", 0755); if (chdir("f")) _exit(94); HostNoise{0}.Apply(); std::string out; WriteMission(s, N, "logs");
    std::unique_ptr<MonteCarloSimulationExecutor> mc(InitMonteCarloSimulation(Settings::BaseFile())); MonteCarloSimulationExecutor::SetSeed((unsigned long)s.P("mcseed"), true);
    for (long k = 0; k < target; k++) { mc->RandomizeAllParameters(); mc->AtTheEndOfEachCase(); }
    Put(out, OneCase(s, *mc, "logs/c", abort_of(target), target)); return out;
  });
  if (!fresh.ok) c.Fail("case-aborted", "the case in a fresh process %s", fresh.why.c_str());
  q = 0; CaseOut F = Get(fresh.out, q);
  auto same = [&](const CaseOut& x, const CaseOut& y, const std::string& what) {
    c.Check(x.done == y.done && x.start.size() == y.start.size() && x.rows.size() == y.rows.size(), "case-shape", "%s: lengths differ (%zu and %zu values)", what.c_str(), x.rows.size(), y.rows.size());
    for (size_t i = 0; i < x.start.size(); i++) c.Check(!memcmp(&x.start[i], &y.start[i], 8), "case-initial", "%s: initial value %zu is %.17g and %.17g", what.c_str(), i, x.start[i], y.start[i]);
    for (size_t i = 0; i < x.rows.size(); i++) c.Check(!memcmp(&x.rows[i], &y.rows[i], 8) || (std::isnan(x.rows[i]) && std::isnan(y.rows[i])), "case-differs", "%s: recorded value %zu of %zu is %.17g and %.17g", what.c_str(), i, x.rows.size(), x.rows[i], y.rows[i]);
    size_t k = 0; while (k < x.log.size() && k < y.log.size() && x.log[k] == y.log[k]) k++;
    c.Check(x.log == y.log, "case-log", "%s: the logs (%zu and %zu bytes) differ at byte %zu (%s)", what.c_str(), x.log.size(), y.log.size(), k, LogPlace(x.log, k).c_str()); c.Probe("case pairs compared");
  };
  same(H[target], F, Fmt("case %ld after its predecessors and in a fresh process", target));
  if (again) { GetBlob(hist.out, p); b = GetBlob(hist.out, p); q = 0; for (long k = 0; k < ran; k++) { CaseOut o = Get(b, q); same(H[k], o, Fmt("case %ld in the first and the repeated campaign", k)); } }
  bool has_log = !s.P("enable") || s.P("log");
  for (long k = 0; k < ran; k++) if (H[k].done) c.Check(has_log == !H[k].log.empty(), "case-log-kept", "case %ld has %s log", k, has_log ? "no" : "a");
  // not randomised values keep their configured value; randomised ones vary between cases
  Settings st = MissionSettings(s, AllDefs(s));
  for (int d = 0; d < s.L("n"); d++) {
    bool rk = st.sat[d].Get("ATTITUDE", "propagate_mode") != "CONTROLLED", man = st.sat[d].Get("ATTITUDE", "initialize_mode") == "MANUAL", rw = s.P("enable") && ((s.L("randw") >> d) & 1), rq = s.P("enable") && ((s.L("randq") >> d) & 1);
    for (long k = 0; k < ran; k++) {
      if (H[k].start.empty()) continue; const double* w = &H[k].start[d * 10];
      for (int i = 0; i < 3 && rk && man && !rw; i++) c.Near(w[i], atof(st.sat[d].Get("ATTITUDE", Fmt("initial_angular_velocity_b_rad_s(%d)", i)).c_str()), 1e-12, "untouched-rate", Fmt("initial rate of spacecraft %d in case %ld, not randomised", d, k));
      for (int i = 0; i < 4 && rk && man && !rq; i++) c.Near(w[3 + i], atof(st.sat[d].Get("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", i)).c_str()), 1e-9, "untouched-quaternion", Fmt("initial quaternion of spacecraft %d in case %ld, not randomised", d, k));
      double n = 0; for (int i = 3; i < 7; i++) n += w[i] * w[i]; c.Near(n, 1, 1e-9, "unit", "squared norm of the initial quaternion");
      for (int i = 0; i < 3 && rk && rw && d == 1; i++) c.Check(w[i] >= -0.02 - 1e-12 && w[i] <= 0.02 + 1e-12, "bounds", "drawn rate %.12g outside its bounds", w[i]);
      for (long j = 0; j < k; j++) if (!H[j].start.empty()) { if (rk && rw) c.Check(w[0] != H[j].start[d * 10], "no-variation", "cases %ld and %ld drew the same rate", j, k); if (rk && rq) c.Check(w[3] != H[j].start[d * 10 + 3], "no-variation", "cases %ld and %ld drew the same quaternion", j, k); }
    }
  }
  for (auto& h : H) { for (size_t i = 0; i < h.rows.size(); i += 3) c.Hist(h.rows[i]); if (!h.done) c.Count("aborted cases"); }
  for (auto& e : s.ev) if (e.kind == "foreign") c.Count("cases of another mission in between"); if (again) c.Count("campaign repeated");
  c.sim_time_s += s.P("dt") * s.P("steps") * (ran + 1); c.State((uint64_t)(ran * 64 + target * 8 + (s.P("enable") != 0) * 4 + (s.P("log") != 0) * 2 + again) * 1000 + s.ev.size()); c.nontrivial = ran > 0;
}
void Run(const Script& s, Ctx& c) { if (s.P("mode")) Draws(s, c); else Campaign(s, c); }
Registrar reg{[] { Property p; p.id = "D02"; p.generate = Gen; p.execute = Run; p.quick_runs = 1200; p.thorough_runs = 30000;
  p.states_measure = "distinct campaign shapes (cases, target case, switches, disturbing cases) and sets of distribution types"; p.real = "MonteCarloSimulationExecutor, InitializedMonteCarloParameters, SimulationObject registry, SimulationCase, Spacecraft, environment, dynamics, components, Logger";
  p.stub = "ephemeris (SPICE) and NRLMSISE libraries"; p.level_note = "noise seed set at the start of every case by the harness"; return p; }()};
}  // namespace
