// Whole spacecraft with every disturbance and many components: an independent ledger recomputes each disturbance from the environment with own formulas and
// the documented update rule, and twin dynamics driven by the ledger alone must follow the spacecraft step by step.
#include <cmath>
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/orbit/initialize_orbit.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <math_physics/gravity/gravity_potential.hpp>
#include "world/mission.hpp"
using namespace sim;
namespace {
namespace dy = s2e::dynamics;
enum { kGG = 1, kMg = 2, kDrag = 4, kSrp = 8, kThird = 16, kGeo = 32 };
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; MissionOpt o; o.max_craft = 2; o.noise = 0; o.exotic = false; o.ground = false; o.max_steps = thorough ? 200 : 50; GenMission(r, s, o);
  for (int d = 0; d < s.L("n"); d++) {
    auto K = [&](const char* k) { return Fmt("s%d.%s", d, k); };
    s.p[K("att")] = r.Chance(0.65) ? 0 : 1; s.p[K("init")] = s.P(K("att")) == 0 && r.Chance(0.4); s.p[K("orb")] = r.Pick<double>({0, 0, 0, 2, 1}); s.p[K("env")] = r.Chance(0.7) ? 31 : (double)r.Int(0, 31);
    s.p[K("dist")] = r.Chance(0.1) ? 0 : r.Chance(0.3) ? 63 : r.Chance(0.4) ? (double)(1 << r.Int(0, 5)) : (double)r.Int(0, 63);
    s.p[K("thermal")] = 0; s.p[K("surf")] = (double)r.Int(1, 1000000000); s.p[K("aligned")] = r.Chance(0.5); s.p[K("modes")] = (double)r.Int(1, 1000000000);
    if (r.Chance(0.3)) { if (r.Chance(0.6)) { s.p[K("rwalk")] = r.LogUni(1e-2, 10); s.p[K("rlimit")] = s.P(K("rwalk")) * r.LogUni(0.02, 3); } if (s.P(K("rwalk")) == 0 || r.Chance(0.3)) s.p[K("rwhite")] = r.LogUni(1e-2, 10); s.p[K("dist")] = (double)(s.L(K("dist").c_str()) | kMg); if (s.P(K("rwalk")) > 0 && r.Chance(0.1)) { s.p["steps"] = r.Int(300, 500); s.p[K("rlimit")] = s.P(K("rwalk")) * r.Uni(0.05, 0.2); s.p[K("rwhite")] = 0; } }
    for (long k = r.Int(0, 3); k > 0; k--) s.Add(r.Int(1, s.L("steps")), "push", {(double)d, r.Gauss(), r.Gauss(), r.Gauss(), r.Gauss() * 1e-3, r.Gauss() * 1e-3, r.Gauss() * 1e-3});
    for (long k = r.Chance(0.3) ? r.Int(1, 3) : 0; k > 0; k--) s.Add(r.Int(1, s.L("steps")), "mass", {(double)d, r.LogUni(1, 300)});
    for (long k = r.Chance(0.2) ? r.Int(1, 2) : 0; k > 0; k--) s.Add(r.Int(1, s.L("steps")), "structure", {(double)d, (double)r.Int(0, 3), r.Uni(0.1, 2)});
  }
  s.SortEvents(); return s;
}
// gravity of the synthetic coefficient file: numerical gradient of the potential
const int kDeep = 40;
struct Field {
  std::vector<std::vector<double>> C, S, N; int deg = 0;
  Field() : C(kDeep + 1, std::vector<double>(kDeep + 1)), S(C), N(C) { for (int n = 0; n <= kDeep; n++) for (int m = 0; m <= n; m++) { double x = (m ? 2.0 : 1.0) * (2 * n + 1); for (int k = n - m + 1; k <= n + m; k++) x /= k; N[n][m] = std::sqrt(x); } }
  double U(const V3& x) const {
    double r = Norm(x), sp = x[2] / r, cp = std::sqrt(std::max(0.0, 1 - sp * sp)), lam = std::atan2(x[1], x[0]), u = 0, w = 1, q = s2e::environment::earth_equatorial_radius_m / r; static double P[kDeep + 2][kDeep + 2]; double cm[kDeep + 1], sm[kDeep + 1];
    P[0][0] = 1; for (int m = 1; m <= deg; m++) P[m][m] = P[m - 1][m - 1] * (2 * m - 1) * cp;
    for (int m = 0; m <= deg; m++) { cm[m] = std::cos(m * lam); sm[m] = std::sin(m * lam); for (int n = m + 1; n <= deg; n++) P[n][m] = ((2 * n - 1) * sp * P[n - 1][m] - (n > m + 1 ? (n + m - 1) * P[n - 2][m] : 0)) / (n - m); }
    for (int n = 1; n <= deg; n++) { w *= q; if (n > 1) for (int m = 0; m <= n; m++) u += w * N[n][m] * P[n][m] * (C[n][m] * cm[m] + S[n][m] * sm[m]); }
    return u * s2e::environment::earth_gravitational_constant_m3_s2 / r;
  }
  V3 Acc(const V3& x) const { V3 g(0.0); double h = Norm(x) * 1e-4; for (int i = 0; i < 3; i++) { V3 d(0.0); d[i] = h; g[i] = (8 * (U(x + d) - U(x - d)) - (U(x + 2.0 * d) - U(x - 2.0 * d))) / (12 * h); } return g; }
};
// F02: the laws themselves, one or few disturbances at a time, deep gravity fields, nothing else acting
Script GenLaw(uint64_t seed, bool thorough) {
  Script s = Gen(seed, thorough); Rng r(seed ^ 0x5eed); s.p["law"] = 1; if (r.Chance(0.6)) s.p["deep"] = r.Pick<double>({9, 12, 20, 33, kDeep, (double)r.Int(9, kDeep)}); if (r.Chance(0.5)) s.p["dt"] = r.Pick<double>({30, 60, 120}); if (s.P("dt") * s.P("m_orb") > 150) s.p["m_orb"] = 1;
  for (int d = 0; d < s.L("n"); d++) {
    auto K = [&](const char* k) { return Fmt("s%d.%s", d, k); }; s.p[K("parts")] = 0; s.p.erase(K("rwalk")); s.p.erase(K("rlimit")); s.p.erase(K("rwhite")); s.p[K("env")] = 31;
    s.p[K("dist")] = r.Chance(0.7) ? (double)(1 << r.Int(0, 5)) : (double)r.Int(1, 63); if (s.P("deep") > 0 && r.Chance(0.4)) s.p[K("dist")] = kGeo;
  }
  if (s.P("steps") > 100 && !thorough) s.p["steps"] = 100;
  std::vector<Event> ev; for (auto& e : s.ev) if (e.kind == "structure") ev.push_back(e); s.ev = ev; return s;
}
struct Twin {
  std::unique_ptr<dy::attitude::AttitudeRk4> att; std::unique_ptr<dy::orbit::Orbit> orb; int mode = 0, dist = 0; Field field; V3 gg{0.0}, mg{0.0}, df{0.0}, dt{0.0}, sf{0.0}, st{0.0}, third{0.0}, geo{0.0};
  V3 cf{0.0}, ct{0.0}, push{0.0}, twist{0.0}; double tw = 0, tm = 0, mm = 0; bool drag_now = false; double ss = 0, ds = 0, sl = 0, dl = 0; long asked_f = 0, asked_t = 0; double da = 0; Quat q; double mass = 1; V3 tot_f{0.0}, tot_t{0.0}, tot_a{0.0}; bool out = false;
  double walk = 0, limit = 0, white = 0; V3 dm{0.0}, extra{0.0}; long drawn = 0; double chi = 0; bool moved = false; V3 q_field{0.0}; double pa = 0, pb = 0, saa = 0, sab = 0, sbb = 0, away = 0;
};
void Surface(Craft& k, const V3& dir, const std::function<void(const s2e::spacecraft::Surface&, double, double, double&, double&)>& coef, double unit, double& scale, double& slack, V3& F, V3& T) {
  scale = 0; for (auto& u : k.Struct().GetSurfaces()) scale += 4 * unit * u.GetArea_m2();
  slack = 0; F = T = V3(0.0); V3 s = (1 / Norm(dir)) * dir; V3 cog = k.Struct().GetKinematicsParameters().GetCenterOfGravity_b_m();
  for (auto& u : k.Struct().GetSurfaces()) {
    V3 n = u.GetNormal_b(); double cs = std::min(1.0, dot(n, s));
    // which side of an exactly grazed surface is hit is a matter of rounding
    if (std::fabs(cs) < 1e-12) { double a, b; coef(u, std::fabs(cs), 1, a, b); slack += std::fabs(a) + std::fabs(b); }
    if (cs <= 0) continue;
    V3 t = s - cs * n; double sn = Norm(t), cn, ctg; if (sn > 0) t = (1 / sn) * t; coef(u, cs, sn, cn, ctg); V3 f = -cn * n - ctg * t; F += f; T += cross(u.GetPosition_b_m() - cog, f);
  }
}
void Run(const Script& s, Ctx& c) {
  auto defs = AllDefs(s); auto st = MissionSettings(s, defs, false); std::vector<Twin> tw(defs.size()); int nn = (int)defs.size();
  for (int i = 0; i < nn; i++) {
    auto P = [&](const char* k, double d = 0) { return s.P(Fmt("s%d.%s", i, k), d); }; Rng r((uint64_t)P("surf", 1)), m((uint64_t)P("modes", 1)); auto& su = st.structure[i];
    V3 ob = RandDir(m); bool oblique = m.Chance(0.5); long n = r.Int(0, 8); su.Set("SURFACES", "number_of_surfaces", (double)n); bool big = r.Chance(0.6);
    for (long k = 0; k < n; k++) {
      V3 nv = RandDir(r); if (P("aligned")) { nv = V3(0.0); nv[r.Int(0, 2)] = r.Sign(); if (oblique && r.Chance(0.7)) nv = r.Sign() * ob; } else if (r.Chance(0.2)) nv = r.Uni(1, 3) * nv;
      su.Set("SURFACES", Fmt("area_%ld_m2", k), big ? r.LogUni(1, 1e3) : r.LogUni(0.01, 1)).Vec("SURFACES", Fmt("position_%ld_b_m", k), r.Uni(0, 2) * RandDir(r)).Vec("SURFACES", Fmt("normal_vector_%ld_b", k), nv);
      su.Set("SURFACES", Fmt("reflectivity_%ld", k), r.Pick<double>({0, 1, r.Uni(), r.Uni()})).Set("SURFACES", Fmt("specularity_%ld", k), r.Pick<double>({0, 1, r.Uni(), r.Uni()})).Set("SURFACES", Fmt("air_specularity_%ld", k), r.Pick<double>({0, 1, r.Uni(), r.Uni()}));
    }
    su.Vec("RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", r.LogUni(1e-3, 1) * RandDir(r)).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_speed_Am2", P("rwalk")).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_limit_Am2", P("rlimit", 1)).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_white_noise_standard_deviation_Am2", P("rwhite")); tw[i].walk = P("rwalk"); tw[i].limit = P("rlimit", 1); tw[i].white = P("rwhite");
    auto& a = st.sat[i]; const char* C = "CONTROLLED_ATTITUDE"; const std::vector<const char*> modes = {"SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING"};
    if (P("aligned")) { int m1 = (int)m.Int(0, 3), m2 = (m1 + (int)m.Int(1, 3)) % 4, ax = (int)m.Int(0, 2); V3 u(0.0), w(0.0); u[ax] = m.Sign(); w[(ax + 1) % 3] = m.Sign(); if (oblique) { u = ob; w = cross(ob, RandDir(m)); } a.Set(C, "main_mode", modes[m1]).Set(C, "sub_mode", modes[m2]).Vec(C, "main_pointing_direction_b", u).Vec(C, "sub_pointing_direction_b", w); }
    st.disturb[i].Set("AIR_DRAG", "wall_temperature_degC", r.Uni(0, 100)).Set("AIR_DRAG", "molecular_temperature_degC", r.Uni(0, 1000)).Set("AIR_DRAG", "molecular_weight_g_mol", r.Uni(2, 30)).Set("THIRD_BODY_GRAVITY", "number_of_third_body", (double)r.Int(1, 2));
    auto& t = tw[i]; t.mode = (int)P("att"); t.dist = (int)P("dist"); t.tw = r.Uni(273, 373); t.field.deg = (int)std::strtod(st.disturb[i].Get("GEOPOTENTIAL", "degree").c_str(), nullptr);
    auto ini = [&](const char* k) { return std::strtod(st.disturb[i].Get("AIR_DRAG", k).c_str(), nullptr); }; t.tw = ini("wall_temperature_degC") + 273.15; t.tm = ini("molecular_temperature_degC") + 273.15; t.mm = ini("molecular_weight_g_mol");
  }
  bool law = s.P("law") > 0; if (law) for (int i = 0; i < nn; i++) { Rng r((uint64_t)s.L("seed", 1) + i); st.sat[i].Vec("ATTITUDE", "initial_angular_velocity_b_rad_s", std::min(0.1, r.LogUni(0.01, 1) / (s.P("dt") * s.P("m_att", 1))) * RandDir(r)); }
  int deep = std::min(kDeep, (int)s.L("deep")); if (deep) for (int i = 0; i < nn; i++) { st.disturb[i].Set("GEOPOTENTIAL", "degree", (double)deep).Set("GEOPOTENTIAL", "coefficients_file_path", "SETTINGS_DIR_FROM_EXE/environment/gravity_field/deep.txt"); tw[i].field.deg = deep; }
  st.Write(); WriteGravityFiles(); std::string field = "settings/environment/gravity_field/earth.txt";
  if (deep) { Rng r((uint64_t)s.L("seed", 1)); std::string e; for (int n = 2; n <= kDeep; n++) for (int m = 0; m <= n; m++) e += Fmt("%4d%4d %.12E %.12E 0 0\n", n, m, r.Chance(0.15) ? 0.0 : 1e-5 * r.Uni(-1, 1), m && !r.Chance(0.15) ? 1e-5 * r.Uni(-1, 1) : 0.0); field = "settings/environment/gravity_field/deep.txt"; WriteFile(field, e); c.Count("deep gravity field"); }
  { std::string txt = ReadFile(field); const char* p = txt.c_str(); int n, m, used; double cc, ss; while (std::sscanf(p, "%d %d %lf %lf %*f %*f%n", &n, &m, &cc, &ss, &used) == 4) { if (n <= kDeep && m <= n) for (auto& t : tw) { t.field.C[n][m] = cc; t.field.S[n][m] = ss; } p += used; } }
  Mission mi(s, defs); auto hk = mi.Hooks(); auto inner = hk.build; int pos = 0; Case* cp = nullptr; double last = 0;
  hk.build = [&](Craft& k, Parts& p) {
    inner(k, p); int i = pos++;
    {  // the structure is the configured one
      auto& su = st.structure[i]; auto num = [&](const char* sec, const std::string& key) { return std::strtod(su.Get(sec, key).c_str(), nullptr); }; auto vec = [&](const char* sec, const std::string& key) { return Vec(num(sec, key + "(0)"), num(sec, key + "(1)"), num(sec, key + "(2)")); };
      auto same = [&](double got, double want, const std::string& what) { c.Near(got, want, 1e-12 + 1e-9 * std::fabs(want), "structure", Fmt("%s of craft %d", what.c_str(), i)); }; auto same3 = [&](const V3& got, const V3& want, const std::string& what) { NearV(c, got, want, 1e-12 + 1e-9 * Norm(want), "structure", Fmt("%s of craft %d", what.c_str(), i)); };
      const char *K = "KINEMATIC_PARAMETERS", *U = "SURFACES"; auto& kp = k.Struct().GetKinematicsParameters(); same(kp.GetMass_kg(), num(K, "mass_kg"), "mass"); same3(kp.GetCenterOfGravity_b_m(), vec(K, "center_of_gravity_b_m"), "centre of mass"); for (int a = 0; a < 9; a++) same(kp.GetInertiaTensor_b_kgm2()[a / 3][a % 3], num(K, Fmt("inertia_tensor_kgm2(%d)", a)), Fmt("inertia (%d)", a));
      same3(k.Struct().GetResidualMagneticMoment().GetConstantValue_b_Am2(), vec("RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2"), "residual magnetic moment"); auto& sf = k.Struct().GetSurfaces(); same((double)sf.size(), num(U, "number_of_surfaces"), "number of surfaces");
      for (size_t a = 0; a < sf.size(); a++) { auto key = [&](const char* n, const char* u) { return Fmt("%s_%zu%s", n, a, u); }; V3 nv = vec(U, key("normal_vector", "_b")); if (Norm(nv) > 1) nv = (1 / Norm(nv)) * nv; same3(sf[a].GetNormal_b(), nv, key("normal", "")); same3(sf[a].GetPosition_b_m(), vec(U, key("position", "_b_m")), key("position", "")); same(sf[a].GetArea_m2(), num(U, key("area", "_m2")), key("area", "")); same(sf[a].GetReflectivity(), num(U, key("reflectivity", "")), key("reflectivity", "")); same(sf[a].GetSpecularity(), num(U, key("specularity", "")), key("specularity", "")); same(sf[a].GetAirSpecularity(), num(U, key("air_specularity", "")), key("air_specularity", "")); }
      c.Probe("structures");
    }
 auto* t = &tw[i]; auto f0 = p.force, t0 = p.torque; auto i0 = p.interference; Craft* kp = &k;
    p.force = [=] { V3 f(0.0); if (f0) f = f0(); t->cf = f + t->push; t->asked_f++; return t->cf; };
    p.torque = [=] { V3 f(0.0); if (t0) f = t0(); t->ct = f + t->twist; t->asked_t++; return t->ct; };
    p.interference = [=, &c, &cp] {
      if (i0) i0();
      if (t->out) return;
      Craft& k = *kp; auto& env = k.Env(); auto& time = cp->Time(); bool fo = time.GetOrbitPropagateFlag(), fa = time.GetAttitudePropagateFlag(); auto& O = k.Dyn().GetOrbit(); Quat q = k.Dyn().GetAttitude().GetQuaternion_i2b(); t->q = q; t->mass = k.Struct().GetKinematicsParameters().GetMass_kg();
      V3 r = O.GetPosition_i_m(); if (s.P("law") > 0 && !(Norm(r) > 6.45e6 && Norm(r) < 1e9 && (t->mode || Norm(k.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()) * time.GetAttitudeRkStepTime_s() < 0.3))) { t->out = true; c.Count("spacecraft left the validity of the models"); return; }
      auto& ci = env.GetCelestialInformation(); auto& gi = cp->Global().GetCelestialInformation(); int D = t->dist;
      if (fo || fa) {
        if (D & kGG) { V3 u = RotI2B(q, (-1 / Norm(r)) * r); V3 Iu(0.0); auto I = k.Struct().GetKinematicsParameters().GetInertiaTensor_b_kgm2(); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) Iu[a] += I[a][b] * u[b]; t->gg = (3 * gi.GetCenterBodyGravityConstant_m3_s2() / std::pow(Norm(r), 3)) * cross(u, Iu); }
        if (D & kMg) t->mg = 1e-9 * cross(k.Struct().GetResidualMagneticMoment().GetConstantValue_b_Am2(), fa ? RotI2B(q, env.GetGeomagneticField().GetGeomagneticField_i_nT()) : env.GetGeomagneticField().GetGeomagneticField_b_nT());
        if (D & kSrp) {
          double pr = env.GetSolarRadiationPressure().GetPressure_N_m2(); V3 sun = RotI2B(q, gi.GetPositionFromCenter_i_m("SUN") - r);
          if (!fo && fa) sun = RotI2B(q, ci.GetPositionFromSpacecraft_i_m("SUN"));
          Surface(k, sun, [&](const s2e::spacecraft::Surface& u, double cs, double sn, double& cn, double& ct) { double rs = u.GetReflectivity() * u.GetSpecularity(), rd = u.GetReflectivity() - rs, A = u.GetArea_m2() * pr; cn = A * ((1 + rs) * cs * cs + 2.0 / 3 * rd * cs); ct = A * (1 - rs) * cs * sn; }, pr, t->ss, t->sl, t->sf, t->st);
        }
        if (D & kDrag) {
          auto E = gi.GetEarthRotation().GetDcmJ2000ToEcef(); V3 ve = O.GetVelocity_ecef_m_s(), vi(0.0); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) vi[a] += E[b][a] * ve[b]; V3 v = RotI2B(q, vi); double V = Norm(v), rho = env.GetAtmosphere().GetAirDensity_kg_m3();
          double sp = std::sqrt(t->mm * 1e-3 / 6.02214076e23 * V * V / (2 * s2e::environment::boltzmann_constant_J_K * t->tw)), pi = std::sqrt(M_PI);
          Surface(k, v, [&](const s2e::spacecraft::Surface& u, double cs, double sn, double& cn, double& ct) {
            double x = sp * cs, e = std::exp(-x * x), g = 1 + std::erf(x), sg = 1 - u.GetAirSpecularity(), Pi = x * e + pi * (x * x + 0.5) * g, Chi = e + pi * x * g, A = 0.5 * rho * V * V * u.GetArea_m2();
            cn = A * ((2 - sg) / pi * Pi + sg / 2 * Chi * std::sqrt(t->tw / t->tm)) / (sp * sp); ct = A * sg * sp * sn * Chi / (pi * sp * sp);
          }, 0.5 * rho * V * V, t->ds, t->dl, t->df, t->dt);
        }
      }
      if (fo) {
        if (D & kThird) { t->third = V3(0.0); std::vector<const char*> bs = {"SUN"}; if (t->da > 1) bs.push_back("MOON"); for (auto b : bs) { V3 rb = gi.GetPositionFromCenter_i_m(b), d = rb - r; t->third += gi.GetGravityConstant_m3_s2(b) * ((1 / std::pow(Norm(d), 3)) * d - (1 / std::pow(Norm(rb), 3)) * rb); } }
        if (D & kGeo) { V3 g = t->field.Acc(O.GetPosition_ecef_m()), gi3(0.0); auto E = gi.GetEarthRotation().GetDcmJ2000ToEcef(); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) gi3[a] += E[b][a] * g[b]; t->geo = gi3; }
      }
      c.Probe("disturbance ledger"); V3 wt = t->gg + t->mg + t->dt + t->st, wf = t->df + t->sf, wa = t->third + t->geo; auto at = Fmt("of craft %d at %.9g s (disturbances %d, %s%s)", i, time.GetElapsedTime_s(), D, fo ? "orbit " : "", fa ? "attitude" : "");
      auto lim = [&](double scale, double rel) { return rel * scale + 1e-300; }; double sT = Norm(t->gg) + Norm(t->mg) + Norm(t->dt) + Norm(t->st), sF = t->ss + t->ds;
      double lever = 0; for (auto& u : k.Struct().GetSurfaces()) lever = std::max(lever, Norm(u.GetPosition_b_m() - k.Struct().GetKinematicsParameters().GetCenterOfGravity_b_m()));
      double graze = 1.01 * (t->sl + t->dl), gT = lever * graze; sT += lever * sF; V3 B = fa ? RotI2B(q, env.GetGeomagneticField().GetGeomagneticField_i_nT()) : env.GetGeomagneticField().GetGeomagneticField_b_nT(); double Iv = 0; { auto I = k.Struct().GetKinematicsParameters().GetInertiaTensor_b_kgm2(); for (int a = 0; a < 3; a++) Iv = std::max(Iv, I[a][a]); } if (D & kGG) sT += 3 * 4e14 / std::pow(Norm(r), 3) * Iv;
      if ((D & kMg) && (t->walk > 0 || t->white > 0)) {
        // The moment wanders: only its part across the field shows, which has to stay within the configured bounds, to spread as configured, and to be a torque of a magnetic moment
        if ((fo || fa) && Norm(B) == 0) t->extra = V3(0.0);
        if ((fo || fa) && Norm(B) > 0) {
          V3 R = k.Dist().GetTorque_b_Nm() - wt; double b = Norm(B), err = lim(sT + Norm(R), 1e-7) + gT, ed = 1e9 * err / b; c.Near(dot(R, (1 / b) * B), 0, err, "moment-noise", "torque along the magnetic field " + at); V3 dm = (1e9 / (b * b)) * cross(B, R), d0 = t->dm; if (!Finite(dm)) dm = V3(0.0); double sp = t->walk + t->white;
          c.Check(Norm(dm) <= 1.74 * ((t->walk > 0 ? t->limit + 0.8 * t->walk : 0) + 8 * t->white) + ed, "moment-noise", "magnetic moment %s is off by %.3g A m2 (walk %.3g, limit %.3g, white noise %.3g)", at.c_str(), Norm(dm), t->walk, t->limit, t->white);
          if (t->white == 0 && t->drawn) { V3 d0b = d0 - (dot(d0, B) / (b * b)) * B, dd = dm - d0b; double turn = (t->limit + 0.8 * t->walk) * 1.74 * Norm(cross(t->q_field, (1 / b) * B)); c.Check(Norm(dd) <= 1.74 * 0.8 * t->walk + 3 * turn + 2 * ed, "moment-noise", "magnetic moment %s jumped by %.3g A m2 (walk %.3g)", at.c_str(), Norm(dd), t->walk); }
          if (ed < 1e-4 * sp) {
            t->drawn++; t->away += Norm(dm); V3 e2 = cross((1 / b) * B, Vec(1, 1, 1)), e1 = cross(e2, (1 / b) * B); if (Norm(e1) > 1e-3) { double a = dot(e1, dm) / Norm(e1), b2 = dot(e2, dm) / Norm(e2); t->saa += (a - t->pa) * (a - t->pa); t->sbb += (b2 - t->pb) * (b2 - t->pb); t->sab += (a - t->pa) * (b2 - t->pb); t->pa = a; t->pb = b2; }
            if (t->walk == 0) t->chi += dot(dm, dm) / (t->white * t->white); if (t->drawn > 1 && Norm(dm - d0) > 0.01 * (t->walk * 0.05 + t->white)) t->moved = true; }
          t->dm = dm; t->q_field = (1 / b) * B; t->extra = R;
        }
        c.Probe("wandering magnetic moment"); wt = wt + t->extra;
      }
      NearV(c, k.Dist().GetTorque_b_Nm(), wt, lim(sT, 1e-7) + gT, "disturbance-torque", "total disturbance torque " + at);
      NearV(c, k.Dist().GetForce_b_N(), wf, lim(sF, 1e-7) + graze, "disturbance-force", "total disturbance force " + at);
      NearV(c, k.Dist().GetAcceleration_i_m_s2(), wa, lim(Norm(t->third) + Norm(t->geo), 1e-6), "disturbance-acceleration", "total disturbance acceleration " + at);
      if (law) {
        V3 F = k.Dist().GetForce_b_N(); double tiny = lim(sF, 1e-9) + graze;
        if (D == kSrp && (fo || fa)) { V3 sun = RotI2B(q, ci.GetPositionFromSpacecraft_i_m("SUN")); c.Check(dot(F, (1 / Norm(sun)) * sun) <= tiny, "pulled-by-light", "radiation pressure pulls the spacecraft towards the sun %s", at.c_str()); }
        if (D == kDrag && (fo || fa)) { auto E = gi.GetEarthRotation().GetDcmJ2000ToEcef(); V3 ve = O.GetVelocity_ecef_m_s(), vi = E.Transpose() * ve, v = RotI2B(q, vi); c.Check(dot(F, (1 / Norm(v)) * v) <= tiny, "pushed-by-drag", "drag pushes the spacecraft forward %s", at.c_str()); if (env.GetAtmosphere().GetAirDensity_kg_m3() == 0) c.Check(Norm(F) == 0, "drag-in-vacuum", "drag in vacuum %s", at.c_str()); }
        if (D == kGG && (fo || fa)) { V3 T = k.Dist().GetTorque_b_Nm(), u = RotI2B(q, (1 / Norm(r)) * r); c.Check(std::fabs(dot(T, u)) <= lim(sT, 1e-9), "gradient-about-vertical", "gravity gradient torque about the vertical %s", at.c_str()); }
        if ((D & kGeo) && fo) {  // derivative of the acceleration, as offered for estimation
          s2e::gravity::GravityPotential g(t->field.deg, t->field.C, t->field.S); V3 x = O.GetPosition_ecef_m(); auto M = g.CalcPartialDerivative_xcxf_s2(x); double h = 1e-4 * Norm(x), sc = Norm(t->geo) / Norm(x) * t->field.deg, tr = 0;
          for (int b = 0; b < 3; b++) { V3 e(0.0); e[b] = h; V3 y1 = x + e, y2 = x - e, y3 = x + 2.0 * e, y4 = x - 2.0 * e; V3 dA = (1 / (12 * h)) * (8.0 * (g.CalcAcceleration_xcxf_m_s2(y1) - g.CalcAcceleration_xcxf_m_s2(y2)) - (g.CalcAcceleration_xcxf_m_s2(y3) - g.CalcAcceleration_xcxf_m_s2(y4))); for (int a = 0; a < 3; a++) c.Near(M[a][b], dA[a], 1e-5 * sc, "gravity-gradient", Fmt("derivative (%d,%d) of the gravity field of degree %d %s", a, b, t->field.deg, at.c_str())); tr += M[b][b]; }
          c.Near(tr, 0, 1e-9 * sc + 1e-9 * (std::fabs(M[0][0]) + std::fabs(M[1][1]) + std::fabs(M[2][2])), "laplace", "trace of the derivative of the gravity field " + at); c.Probe("derivative of the gravity field");
        }
        if (Norm(wt) > 0 || Norm(wf) > 0 || Norm(wa) > 0) c.nontrivial = true; Hist(c, k.Dist().GetTorque_b_Nm()); Hist(c, k.Dist().GetForce_b_N()); Hist(c, k.Dist().GetAcceleration_i_m_s2());
      }
      if (!D) c.Check(Norm(k.Dist().GetTorque_b_Nm()) == 0 && Norm(k.Dist().GetForce_b_N()) == 0 && Norm(k.Dist().GetAcceleration_i_m_s2()) == 0, "disabled", "disabled disturbances act on craft %d", i);
      t->tot_f = k.Dist().GetForce_b_N(); t->tot_t = k.Dist().GetTorque_b_Nm(); t->tot_a = k.Dist().GetAcceleration_i_m_s2();
      if (D & (kSrp | kDrag)) { V3 dir = RotI2B(q, ci.GetPositionFromSpacecraft_i_m("SUN")); dir = (1 / Norm(dir)) * dir; for (auto& u : k.Struct().GetSurfaces()) if (dot(dir, u.GetNormal_b()) > 1 - 1e-12) c.Count("surface normal exactly towards the sun"); }
      c.State(Fmt("%d|%d%d|%d", D, fo, fa, t->mode));
    };
  };
  mi.ready = [&](Case& cs) {
    cp = &cs;
    for (int i = 0; i < nn; i++) {
      auto& k = *cs.craft[i]; auto& t = tw[i]; auto& a = k.Dyn().GetAttitude(); auto& time = cs.Time(); t.da = std::strtod(st.disturb[i].Get("THIRD_BODY_GRAVITY", "number_of_third_body").c_str(), nullptr);
      if (t.mode == 0) t.att.reset(new dy::attitude::AttitudeRk4(a.GetAngularVelocity_b_rad_s(), a.GetQuaternion_i2b(), k.Struct().GetKinematicsParameters().GetInertiaTensor_b_kgm2(), V3(0.0), time.GetAttitudeRkStepTime_s(), Fmt("twin%d", i)));
      auto& gc = cs.Global().GetCelestialInformation(); t.orb.reset(dy::orbit::InitOrbit(&gc, cs.Conf().spacecraft_file_list_[i], time.GetOrbitRkStepTime_s(), time.GetCurrentTime_jd(), gc.GetCenterBodyGravityConstant_m3_s2(), "ORBIT", nullptr));
    }
  };
  mi.before = [&](Case& cs, long step) {
    for (auto& t : tw) { t.push = t.twist = V3(0.0); t.asked_f = t.asked_t = 0; }
    for (auto& e : s.ev) if (e.t == step && e.I(0) < nn && e.I(0) >= 0) {
      auto& t = tw[e.I(0)]; auto& S = cs.craft[e.I(0)]->Struct();
      if (e.kind == "push") { t.push = Vec(e.A(1), e.A(2), e.A(3)); t.twist = Vec(e.A(4), e.A(5), e.A(6)); c.Count("component force pulse"); }
      if (e.kind == "mass") { S.GetToSetKinematicsParameters().SetMass_kg(e.A(1)); c.Count("mass change"); }
      if (e.kind == "structure") {
        c.Count("structure change"); double f = e.A(2, 1); auto& kp = S.GetToSetKinematicsParameters();
        if (e.I(1) == 0) for (auto& u : S.GetToSetSurfaces()) u.SetArea_m2(f * u.GetArea_m2());
        if (e.I(1) == 1) kp.SetCenterOfGravityVector_b_m(f * kp.GetCenterOfGravity_b_m());
        if (e.I(1) == 2) S.GetToSetResidualMagneticMoment().SetRmmConstant_b_Am2(f * S.GetResidualMagneticMoment().GetConstantValue_b_Am2());
        if (e.I(1) == 3 && S.GetToSetSurfaces().size()) { auto& u = S.GetToSetSurfaces()[0]; u.SetNormal_b(u.GetNormal_b() + f * Vec(0.3, -0.2, 0.1)); }
      }
      if (e.kind == "power") c.Count("power switched");
    }
  };
  mi.after = [&](Case& cs, long) {
    auto& time = cs.Time(); double el = time.GetElapsedTime_s(); bool fo = time.GetOrbitPropagateFlag(), fa = time.GetAttitudePropagateFlag();
    for (int i = 0; i < nn; i++) {
      auto& t = tw[i]; auto& k = *cs.craft[i]; auto& A = k.Dyn().GetAttitude(); auto& O = k.Dyn().GetOrbit(); if (t.out) continue;
      if (law) { double R = Norm(O.GetPosition_i_m()); if (!(R > 6.45e6 && R < 1e9)) { t.out = true; c.Count("spacecraft left the validity of the models"); } continue; }
      auto at = Fmt("of craft %d at %.9g s", i, el); c.Check(t.asked_f >= 1 && t.asked_t >= 1, "components-ignored", "force and torque of the components %s were not collected", at.c_str());
      V3 T = t.tot_t + t.ct, F = t.tot_f + t.cf, acc = t.tot_a + (1 / t.mass) * RotB2I(t.q, F); c.Probe("dynamics against the ledger");
      if (t.att && fa) { t.att->SetTorque_b_Nm(T); t.att->Propagate(el); }
      if (fo) { t.orb->SetAcceleration_i_m_s2(acc); t.orb->Propagate(el, time.GetCurrentTime_jd()); }
      { double R = Norm(t.orb->GetPosition_i_m()), V = Norm(t.orb->GetVelocity_i_m_s()); if (!(R > 6.45e6 && R < 1e9 && V < 3e4)) { t.out = true; c.Count("spacecraft left the validity of the models"); continue; } }
      if (t.att) {
        double ws = Norm(t.att->GetAngularVelocity_b_rad_s()), jump = 1e-9 * (ws + 1e-3); if (!(ws * time.GetAttitudeRkStepTime_s() < 0.3)) { t.out = true; c.Count("spacecraft left the validity of the models"); continue; }
        NearV(c, A.GetAngularVelocity_b_rad_s(), t.att->GetAngularVelocity_b_rad_s(), jump, "torque-applied", "angular velocity (torque in the ledger applied once) " + at);
        t.att->SetAngularVelocity_b_rad_s(A.GetAngularVelocity_b_rad_s()); t.att->SetQuaternion_i2b(A.GetQuaternion_i2b());
      }
      double dist = Norm(t.orb->GetPosition_i_m()), tol = 1e-14 * dist * (10 + cs.step);
      NearV(c, O.GetVelocity_i_m_s(), t.orb->GetVelocity_i_m_s(), 1e-11 * Norm(O.GetVelocity_i_m_s()) , "force-applied", "velocity (force in the ledger applied once) " + at);
      NearV(c, O.GetPosition_i_m(), t.orb->GetPosition_i_m(), 100 * tol, "force-applied", "position (force in the ledger applied once) " + at);
      NearV(c, O.GetVelocity_b_m_s(), RotI2B(A.GetQuaternion_i2b(), O.GetVelocity_i_m_s()), 1e-9 * Norm(O.GetVelocity_i_m_s()), "body-velocity", "velocity in the body frame " + at);
      Hist(c, O.GetPosition_i_m()); Hist(c, A.GetAngularVelocity_b_rad_s()); if (Norm(T) > 0 || Norm(acc) > 0) c.nontrivial = true;
    }
    last = el;
  };
  g_clock.active = true; s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); Case cs(hk, false); cs.Initialize(); cs.Main(); g_clock.active = false; c.sim_time_s = last;
  for (int i = 0; i < nn; i++) {
    auto& t = tw[i]; if (t.drawn >= 5) { c.Probe("moment noise statistics"); c.Check(t.moved, "moment-noise", "the magnetic moment of craft %d does not wander in %ld updates (walk %.3g, white noise %.3g)", i, t.drawn, t.walk, t.white); }
    if (t.drawn >= 20) { double tr = t.saa + t.sbb, det = t.saa * t.sbb - t.sab * t.sab; c.Check(det > 1e-6 * tr * tr, "moment-noise", "the magnetic moment of craft %d wanders along one direction only", i); }
    if (t.drawn >= 100 && t.white == 0) { c.Probe("moment within its limit over many updates"); double m = t.away / t.drawn; c.Check(m < 1.5 * (t.limit + 0.15 * t.walk), "moment-noise", "the magnetic moment of craft %d is off by %.3g A m2 in the mean of %ld updates (walk %.3g, limit %.3g)", i, m, t.drawn, t.walk, t.limit); }
    if (t.walk == 0 && t.drawn >= 10) { double n = 2.0 * t.drawn, x = std::cbrt(t.chi / n), z = (x - (1 - 2 / (9 * n))) / std::sqrt(2 / (9 * n)); c.Check(std::fabs(z) < 6.5, "moment-noise", "white noise of the magnetic moment of craft %d: spread %.4g times the configured one in %ld updates", i, std::sqrt(t.chi / n), t.drawn); }
  }
}
Registrar reg{[] { Property p; p.id = "F01"; p.generate = Gen; p.execute = Run; p.quick_runs = 700; p.thorough_runs = 20000; p.states_measure = "distinct (disturbances enabled, models updated in the step, attitude mode)"; p.simple = {{"m_att", 1}, {"m_orb", 1}, {"m_th", 1}, {"m_comp", 1}, {"m_log", 1}};
  p.real = "complete simulation case: spacecraft update, disturbances, environment, components, dynamics"; p.stub = "SPICE ephemerides are analytic; short synthetic gravity coefficient file; scripted extra component force";
  p.level_note = "disturbances recomputed from the environment getters with own formulas to 1e-7 (gravity field 1e-6); dynamics compared with twin integrators fed by the ledger"; return p; }()};
Registrar reg2{[] { Property p; p.id = "F02"; p.generate = GenLaw; p.execute = Run; p.quick_runs = 700; p.thorough_runs = 20000; p.states_measure = "distinct (disturbances enabled, models updated in the step, attitude mode)"; p.simple = {{"m_att", 1}, {"m_orb", 1}, {"m_th", 1}, {"m_comp", 1}, {"m_log", 1}};
  p.real = "complete simulation case: spacecraft update, disturbances, environment, dynamics; gravity potential"; p.stub = "SPICE ephemerides are analytic; synthetic gravity coefficient files up to degree 40";
  p.level_note = "disturbances recomputed from the environment getters with own formulas to 1e-7 (gravity field 1e-6, its derivative 1e-5)"; return p; }()};
}  // namespace
