// Radiation environment of complete simulations: spacecraft are sent across the shadows of seeded bodies (total, annular, partial, exactly aligned, double
// eclipses at seeded conjunctions). Oracle: overlap of the apparent discs, inverse-square flux.
#include <SpiceUsr.h>
#include <cmath>
#include <math_physics/randomization/global_randomization.hpp>
#include "world/mission.hpp"
using namespace sim;
namespace {
const char* kAll[] = {"EARTH", "SUN", "MOON", "VENUS", "MARS", "JUPITER", "MERCURY"};
const double kAu = 1.495978707e11, kLight = 299792458.0, kSolar = 1366.0, kStefan = 5.670374419e-8;
V3 BodyAt(const std::string& b, const std::string& center, double jd) { SpiceDouble st[6], lt; spkezr_c(b.c_str(), (jd - 2451545.0) * 86400.0 + 69.184, "J2000", "NONE", center.c_str(), st, &lt); return 1000.0 * Vec(st[0], st[1], st[2]); }
double JdOf(long y, long m, long d) { long yy = m <= 2 ? y - 1 : y, era = yy / 400, yoe = yy - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return 2440587.5 + era * 146097.0 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["year"] = r.Int(2000, 2035); s.p["month"] = r.Int(1, 12); s.p["day"] = r.Int(1, 28); s.p["hour"] = r.Int(0, 23); s.p["season"] = r.Chance(0.25) ? (double)r.Int(1, 2) : 0; s.p["seed"] = (double)r.Int(1, 1000000000);
  s.p["center"] = r.Pick<double>({0, 0, 0, 0, 2, 2, 1, 4}); s.p["dt"] = r.Pick<double>({0.1, 1, 1, 10, 30}); s.p["steps"] = r.Int(6, thorough ? 120 : 40); s.p["m_orb"] = r.Chance(0.6) ? 1 : (double)r.Int(2, 5); s.p["m_att"] = r.Chance(0.6) ? 1 : (double)r.Int(2, 5);
  long n = r.Int(1, 3); s.p["n"] = n; s.p["bodies"] = (double)r.Int(0, 127);
  for (int i = 0; i < n; i++) {
    auto K = [&](const char* k) { return Fmt("s%d.%s", i, k); };
    s.p[K("same")] = i > 0 && r.Chance(0.4); s.p[K("sources")] = r.Chance(0.3) ? 0 : r.Chance(0.5) ? 4 : (double)r.Int(0, 127); s.p[K("dup")] = r.Chance(0.15); s.p[K("target")] = (double)r.Int(0, 6); s.p[K("zone")] = (double)r.Int(0, 7); s.p[K("u")] = r.Uni(); s.p[K("dist")] = r.Chance(0.3) ? r.Uni(1.01, 3) : r.Chance(0.15) ? r.LogUni(1500, 2e5) : r.LogUni(1.01, 1500);
    s.p[K("geo")] = (double)r.Int(1, 1000000000); s.p[K("sweep")] = r.Chance(0.3) ? 0 : r.LogUni(1e-3, 2); s.p[K("srp")] = r.Chance(0.9); s.p[K("alb")] = r.Chance(0.7); s.p[K("ir")] = r.Chance(0.7); s.p[K("factor")] = r.Pick<double>({0, 1, r.Uni()}); s.p[K("hot")] = r.Uni(200, 320); s.p[K("cold")] = r.Uni(0, 300); s.p[K("pair")] = r.Chance(0.3);
  }
  return s;
}
struct Cx { std::vector<std::string> src; bool srp, alb, ir; double factor, hot, cold; double co = 1, last = -1; bool seen = false; };
// covered part of a disc of radius a by a disc of radius b at separation d
double Cover(double a, double b, double d) {
  if (d >= a + b) return 0; if (d <= b - a) return 1; if (d <= a - b) return b * b / (a * a);
  auto seg = [&](double r, double h) { h = std::max(-r, std::min(r, h)); return r * r * std::acos(h / r) - h * std::sqrt(std::max(0.0, r * r - h * h)); };
  double x = (d * d + a * a - b * b) / (2 * d); return (seg(a, x) + seg(b, d - x)) / (M_PI * a * a);
}
void Run(const Script& s, Ctx& c) {
  int n = (int)std::min(6L, std::max(1L, s.L("n", 1))); double dt = s.P("dt", 1); long steps = s.L("steps", 6); Settings st(n, 0); st.Quiet(); auto& b = st.base; std::string center = kAll[std::min(6L, s.L("center"))];
  long Y = s.L("year", 2020), M = s.L("month", 1), D = s.L("day", 1), H = s.L("hour"); double jd = JdOf(Y, M, D) + H / 24.0;
  if (s.L("season")) {  // closest conjunction (1) or opposition (2) of sun and moon in a year
    double best = 10; long bm = 1, bd = 1, bh = 0;
    for (long m = 1; m <= 12; m++) for (long d = 1; d <= 28; d++) for (long h = 0; h < 24; h += 3) { double j = JdOf(Y, m, d) + h / 24.0; V3 su = BodyAt("SUN", "EARTH", j), mo = (s.L("season") == 1 ? 1.0 : -1.0) * BodyAt("MOON", "EARTH", j); double a = std::atan2(Norm(cross(su, mo)), dot(su, mo)); if (a < best) { best = a; bm = m; bd = d; bh = h; } }
    M = bm; D = bd; H = bh; jd = JdOf(Y, M, D) + H / 24.0; c.Count("conjunction of sun and moon");
  }
  b.Set("TIME", "simulation_start_time_utc", Fmt("%ld/%ld/%ld %ld:00:0.0", Y, M, D, H)).Set("TIME", "simulation_duration_s", dt * (steps - 0.5)).Set("TIME", "simulation_step_s", dt).Set("TIME", "simulation_speed_setting", 0.0);
  double mo = std::max(1L, s.L("m_orb", 1)), ma = std::max(1L, s.L("m_att", 1));
  b.Set("TIME", "attitude_update_period_s", dt * ma).Set("TIME", "orbit_update_period_s", dt * mo).Set("TIME", "thermal_update_period_s", dt).Set("TIME", "component_update_period_s", dt).Set("TIME", "log_output_period_s", dt).Set("TIME", "orbit_integral_step_s", dt).Set("TIME", "attitude_integral_step_s", dt).Set("TIME", "thermal_integral_step_s", dt);
  std::vector<std::string> sel = {"EARTH", "SUN", "MOON"}; for (int k = 3; k < 7; k++) if ((s.L("bodies") >> k) & 1 || center == kAll[k]) sel.push_back(kAll[k]);
  if (s.L("bodies") & 1) std::reverse(sel.begin(), sel.end());
  const char* CI = "CELESTIAL_INFORMATION"; b.Set(CI, "center_object", center).Set(CI, "number_of_selected_body", (double)sel.size()); for (size_t k = 0; k < sel.size(); k++) b.Set(CI, Fmt("selected_body_name(%zu)", k), sel[k]);
  std::vector<Cx> X(n); double j1 = jd + dt / 86400; V3 pos0(0.0), vel0(0.0);
  for (int i = 0; i < n; i++) {
    auto P = [&](const char* k, double d = 0) { return s.P(Fmt("s%d.%s", i, k), d); }; auto& x = X[i]; st.AllDisturbancesOff(i); st.AllNoiseOff(i); Rng r((uint64_t)P("geo", 1));
    st.disturb[i].Set("LUNAR_GRAVITY_FIELD", "coefficients_file_path", "SETTINGS_DIR_FROM_EXE/environment/gravity_field/moon.txt").Set("LUNAR_GRAVITY_FIELD", "degree", 2.0); auto& l = st.local[i]; l.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "DISABLE").Set("ATMOSPHERE", "calculation", "DISABLE");
    x.src = {center}; std::vector<std::string> third; long mask = (long)P("sources"); for (auto& q : sel) for (int k = 0; k < 7; k++) if (q == kAll[k] && ((mask >> k) & 1)) { third.push_back(q); if (P("dup")) third.push_back(q); if (q != center) x.src.push_back(q); }
    const char* S = "SOLAR_RADIATION_PRESSURE_ENVIRONMENT"; x.srp = P("srp", 1) > 0; x.alb = P("alb") > 0; x.ir = P("ir") > 0; x.factor = P("factor"); x.hot = P("hot", 250); x.cold = P("cold", 250);
    l.Enable(S, "calculation", x.srp).Set(S, "number_of_third_shadow_source", (double)third.size()); for (size_t k = 0; k < third.size(); k++) l.Set(S, Fmt("third_shadow_source_name(%zu)", k), third[k]);
    l.Enable("EARTH_ALBEDO", "calculation", x.alb).Set("EARTH_ALBEDO", "earth_albedo_factor", x.factor).Enable("EARTH_INFRARED", "calculation", x.ir).Set("EARTH_INFRARED", "earth_infrared_temperature_hot_side_K", x.hot).Set("EARTH_INFRARED", "earth_infrared_temperature_cold_side_K", x.cold);
    // geometry: behind a source, at a chosen separation
    std::vector<std::string> cand; for (auto& q : x.src) if (q != "SUN") cand.push_back(q); if (cand.empty()) cand.push_back("EARTH"); std::string B = cand[(size_t)P("target") % cand.size()];
    SpiceInt dim; SpiceDouble rad[3]; SpiceInt id; SpiceBoolean f; bodn2c_c(B.c_str(), &id, &f); bodvcd_c(id, "RADII", 3, &dim, rad); double R = rad[0] * 1000;
    V3 rb = BodyAt(B, center, j1), sun = BodyAt("SUN", center, j1) - rb; double Ds = Norm(sun), d = std::max(1.01 * R, std::min(0.5 * Ds, R * P("dist", 2))); V3 u = (1 / Ds) * sun;
    if (P("pair") && s.L("season") == 1 && B == "EARTH") d = R * std::max(120.0, P("dist", 2));
    double a = std::asin(696e6 / (Ds + d)), bb = std::asin(R / d), sep; int z = (int)P("zone"); double w = P("u");
    if (z == 0) sep = 0; else if (z == 1) sep = std::fabs(a - bb) * (1 + (w - 0.5) * 1e-6); else if (z == 2) sep = (a + bb) * (1 + (w - 0.5) * 1e-6); else if (z == 3) sep = w * std::fabs(a - bb); else if (z == 4) sep = std::fabs(a - bb) + w * 2 * std::min(a, bb); else if (z == 5) sep = w * M_PI; else sep = w * 2e-6 * a;
    V3 e1 = cross(u, RandDir(r)); e1 = (1 / Norm(e1)) * e1; V3 e2 = cross(u, e1); sep = std::min(sep, M_PI);
    double ang = sep - std::asin(std::min(1.0, d / Ds * std::sin(std::min(sep, M_PI / 2)))); V3 back = -std::cos(ang) * u + std::sin(ang) * e1; V3 rel = d * back; if (z == 0) { double q = std::pow(2, std::round(std::log2(d / Ds))); rel = -(q * Ds >= 1.01 * R ? q : d / Ds) * sun; }
    if (z == 7) { rel = (Ds * (1 + 0.6 * w)) * u + (1e-3 * w * Ds) * e1; c.Count("shadow source behind the sun"); }
    V3 pos = rb + rel, vel = (P("sweep") * (a + bb) * d / (steps * dt)) * (std::cos(w * 7) * e1 + std::sin(w * 7) * e2); if (Norm(vel) > 1e6) vel = (1e6 / Norm(vel)) * vel; vel += (1 / dt / 2e3) * (BodyAt(B, center, j1 + dt / 86400e-0 * 1e3) - BodyAt(B, center, j1 - dt / 86400 * 1e3));
    if (B == center && d < 50 * R) { SpiceDouble gm; bodvcd_c(id, "GM", 1, &dim, &gm); double circ = std::sqrt(gm * 1e9 / Norm(rel)); V3 t = cross(rel, RandDir(r)); vel = (std::max(std::min(Norm(vel), 1.3 * circ), circ) / Norm(t)) * t; }  // stays above the surface
    if (P("same") && i > 0) { pos = pos0; vel = vel0; c.Count("spacecraft at the same place with other settings"); } if (i == 0) { pos0 = pos; vel0 = vel; }
    st.sat[i].Set("ORBIT", "propagate_mode", "RK4").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Vec("ORBIT", "initial_position_i_m", pos).Vec("ORBIT", "initial_velocity_i_m_s", vel);
  }
  Case* cp = nullptr; double last = 0; int count = 0; Case::Hooks hk;
  hk.build = [&](Craft& k, Parts& p) {
    int i = count++; Craft* kp = &k; if (i >= n) return;
    p.interference = [&, kp, i] {
      auto& x = X[i]; auto& k = *kp; auto& env = k.Env(); auto& srp = env.GetSolarRadiationPressure(); auto& gi = cp->Global().GetCelestialInformation(); double t = cp->Time().GetElapsedTime_s(); bool fo = cp->Time().GetOrbitPropagateFlag();
      double co = srp.GetShadowCoefficient(), alb = env.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2(), ir = env.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2(); auto at = Fmt("of craft %d at %.9g s", i, t);
      if (!fo) { if (x.last >= 0) c.Check(co == x.last, "stale", "the shadow coefficient %s changed without an orbit update", at.c_str()); return; }
      V3 r = k.Dyn().GetOrbit().GetPosition_i_m(), su = gi.GetPositionFromCenter_i_m("SUN") - r; double ds = Norm(su);
      double lo = 1, hi = 1; bool inside = ds <= 696e6; int hit = 0; double ring = 0; std::string what, kinds;
      for (auto& q : x.src) {
        if (q == "SUN") continue; V3 d = gi.GetPositionFromCenter_i_m(q.c_str()) - r; double R = gi.GetMeanRadiusFromName_m(q.c_str()), nd = Norm(d); if (nd <= R * 1.0000001) { inside = true; continue; }
        if (nd > ds) { continue; }
        double a = std::asin(std::min(1.0, gi.GetMeanRadiusFromName_m("SUN") / ds)), bb = std::asin(R / nd), sp = std::atan2(Norm(cross(d, su)), dot(d, su)), A = Cover(a, bb, sp);
        lo -= A; hi = std::min(hi, 1 - A); if (A > 0) { hit++; c.Count(A >= 1 ? "total eclipse" : sp <= a - bb ? "annular eclipse" : "partial eclipse"); kinds += A >= 1 ? "T" : sp <= a - bb ? "A" : "P"; } if (A > 0) what += Fmt(" %s covers %.9g (radii %.6g %.6g separation %.6g)", q.c_str(), A, a, bb, sp); if (A > 0 && A < 1 && sp < (a - bb) * (1 - 1e-6)) ring = A; if (sp < 1e-8) c.Count("exact alignment");
      }
      if (inside) { c.Count("inside a body"); x.last = -1; return; }
      if (hit > 1) c.Count("eclipse by several bodies");
      lo = std::max(0.0, lo); c.Probe("radiation environment"); if (hit) c.nontrivial = true; c.Hist(co);
      double P0 = kSolar / kLight / std::pow(ds / kAu, 2);
      if (!x.srp) {
        lo = hi = 1; P0 = kSolar / kLight; c.Check(srp.GetPressure_N_m2() > 0 && co == 1.0, "disabled", "disabled radiation pressure environment %s has shadow coefficient %.9g", at.c_str(), co);
      }
      c.Check(std::isfinite(co) && co >= 0 && co <= 1, "range", "shadow coefficient %s is %.17g", at.c_str(), co);
      c.Check(co >= lo - 3e-5 && co <= hi + 3e-5, "shadow", "shadow coefficient %s is %.9g instead of %.9g..%.9g:%s", at.c_str(), co, lo, hi, what.c_str());
      if (hit == 1 && ring > 0 && x.srp) { c.Near(1 - co, ring, 1e-3 * ring + 1e-12, "annular", "covered part of the sun " + at + ":" + what); c.Count("body well inside the solar disc"); }
      if (!hit && x.srp) c.Check(co == 1.0 && !srp.GetIsEclipsed(), "full-sun", "shadow coefficient %s is %.17g although no body covers the sun", at.c_str(), co);
      c.Check(srp.GetIsEclipsed() == (co < 1.0), "flag", "eclipse flag %s does not agree with shadow coefficient %.17g", at.c_str(), co);
      c.Near(srp.GetPressureWithoutEclipse_Nm2(), P0, 1e-5 * P0, "flux", "radiation pressure without eclipse " + at);
      c.Near(srp.GetPressure_N_m2(), srp.GetPressureWithoutEclipse_Nm2() * co, 1e-9 * P0, "scaling", "radiation pressure " + at);
      c.Near(srp.GetPowerDensity_W_m2(), srp.GetPressureWithoutEclipse_Nm2() * kLight * co, 1e-9 * P0 * kLight, "power", "solar power density " + at);
      c.Near(alb, x.alb ? x.factor * srp.GetPowerDensity_W_m2() : 0, 1e-9 * P0 * kLight, "albedo", "Earth albedo " + at);
      { double T = srp.GetIsEclipsed() ? x.cold : x.hot; c.Near(ir, x.ir ? kStefan * T * T * T * T : 0, 1e-4 * kStefan * T * T * T * T, "infrared", "Earth infrared " + at); }
      if (x.seen && hit == 0 && x.last < 1) c.Count("left the shadow"); if (x.seen && hit && x.last >= 1) c.Count("entered the shadow"); x.seen = true; x.last = co; c.State(Fmt("%s|%s|%d", center.c_str(), kinds.c_str(), (int)x.srp));
    };
  };
  hk.ready = [&](Case& cs) { cp = &cs; };
  hk.after = [&](Case& cs, long) {
    last = cs.Time().GetElapsedTime_s();
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {  // more sources never make it brighter
      auto &x = X[i], &y = X[j]; if (!x.srp || !y.srp || x.last < 0 || y.last < 0) continue; if (Norm(cs.craft[i]->Dyn().GetOrbit().GetPosition_i_m() - cs.craft[j]->Dyn().GetOrbit().GetPosition_i_m()) > 0) continue;
      auto sub = [](const Cx& p, const Cx& q) { for (auto& e : p.src) if (std::find(q.src.begin(), q.src.end(), e) == q.src.end()) return false; return true; };
      c.Probe("added sources"); if (sub(x, y)) c.Check(y.last <= x.last + 1e-12, "brighter", "craft %d has all shadow sources of craft %d at the same place but is brighter (%.12g, %.12g)", j, i, y.last, x.last); if (sub(y, x)) c.Check(x.last <= y.last + 1e-12, "brighter", "craft %d has all shadow sources of craft %d at the same place but is brighter (%.12g, %.12g)", i, j, x.last, y.last);
    }
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); st.Write(); WriteGravityFiles(); Case cs(hk, false); cs.Initialize(); cs.Main(); g_clock.active = false; c.sim_time_s = last;
}
Registrar reg{[] { Property p; p.id = "E01"; p.generate = Gen; p.execute = Run; p.quick_runs = 1500; p.thorough_runs = 60000; p.states_measure = "distinct (central body, kinds of simultaneous eclipses, model enabled)"; p.simple = {{"m_orb", 1}, {"m_att", 1}, {"season", 0}, {"center", 0}};
  p.real = "complete simulation case: celestial information, local environment, orbit"; p.stub = "SPICE ephemerides are analytic"; p.level_note = "shadow against the overlap of apparent discs to 3e-5, several bodies bounded by the sum and the largest of the covered parts"; return p; }()};
}  // namespace
