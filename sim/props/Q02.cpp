// Commanded pointing in complete missions: every attitude update is compared with target directions recomputed from orbit, ephemeris and Earth rotation,
// while modes and axes are switched at seeded instants and spacecraft fly arbitrary orbits with arbitrary update periods.
#include <cmath>
#include <dynamics/attitude/controlled_attitude.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include "world/mission.hpp"
using namespace sim;
namespace {
using s2e::dynamics::attitude::AttitudeControlMode; using s2e::dynamics::attitude::ControlledAttitude;
const char* kModes[] = {"INERTIAL_STABILIZE", "SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING", "NO_CONTROL"};
const AttitudeControlMode kEnum[] = {AttitudeControlMode::kInertialStabilize, AttitudeControlMode::kSunPointing, AttitudeControlMode::kEarthCenterPointing, AttitudeControlMode::kVelocityDirectionPointing, AttitudeControlMode::kGroundSpeedDirectionPointing, AttitudeControlMode::kOrbitNormalPointing, AttitudeControlMode::kEarthSurfacePointing};
// axes: index i -> main/sub body directions separated by 32..148 degrees
void Axes(uint64_t seed, bool valid, V3& u, V3& w) {
  Rng r(seed); u = r.Chance(0.3) ? Vec(0, 0, 1) : RandDir(r); V3 x = RandDir(r); x = x - dot(x, u) * u; x = (1 / Norm(x)) * x;
  double a = (valid ? r.Uni(32, 148) : r.Chance(0.3) ? 0.0 : r.Uni(0, 28)) * M_PI / 180; if (!valid && r.Chance(0.5)) a = M_PI - a; if (valid && r.Chance(0.3)) a = M_PI / 2; w = std::cos(a) * u + std::sin(a) * x;
}
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; MissionOpt o; o.max_steps = thorough ? 250 : 60; o.min_steps = 4; GenTiming(r, s, o); if (r.Chance(0.6)) { s.p["dt"] = r.Pick<double>({5, 10, 30, 60, 120}); if (s.P("dt") * s.P("m_orb") > 150) s.p["m_orb"] = 1; }
  s.p["n"] = r.Int(1, 2);
  for (int d = 0; d < s.L("n"); d++) {
    GenCraft(r, s, d, o); auto K = [&](const char* k) { return Fmt("s%d.%s", d, k); }; s.p[K("att")] = r.Chance(0.2) ? (r.Chance(0.5) ? 0 : 2) : 1; s.p[K("init")] = s.P(K("att")) != 1 || r.Chance(0.3); s.p[K("parts")] = 0; s.p[K("orb")] = r.Int(0, 2); s.p[K("dist")] = r.Chance(0.5) ? 0 : (double)r.Int(0, 127);
    int kind = r.Chance(0.12) ? (int)r.Int(1, 4) : 0; int m1 = (int)r.Int(1, 6), m2 = m1; while (m2 == m1) m2 = (int)r.Int(1, 6);
    if (kind == 1) m2 = m1; if (kind == 2) m2 = 0; if (kind == 3) { if (r.Chance(0.5)) m1 = 7; else m2 = 7; } if (r.Chance(0.06)) { m1 = 0; kind = 0; if (m2 == 0 || m2 == 7) m2 = (int)r.Int(1, 6); }
    s.p[K("main")] = m1; s.p[K("sub")] = m2; s.p[K("reject")] = kind; s.p[K("axes")] = (double)r.Int(1, 1000000000); s.p[K("scale")] = r.Chance(0.7) ? 1 : r.LogUni(0.01, 100);
    s.p[K("lat")] = r.Chance(0.1) ? r.Sign() * 90 : r.Uni(-89, 89); s.p[K("lon")] = r.Uni(-180, 360); s.p[K("alt")] = r.Uni(-100, 8000);
    if (!kind) for (long k = r.Int(0, 3); k > 0; k--) { int a = (int)r.Int(0, 6), b = a; while (b == a) b = (int)r.Int(1, 6); if (m1 == 0 && a == 0) continue; s.Add(r.Int(2, s.L("steps")), "mode", {(double)d, (double)a, (double)b, (double)r.Int(1, 1000000000), r.Chance(0.6) ? 1 : r.LogUni(0.1, 10)}); }
  }
  s.SortEvents(); return s;
}
struct Track { int m1, m2, reject; V3 u, w; bool inertial_hold; long updates = 0; Quat q, q0; V3 rate; double t = 0; V3 pos, vel, vecef; bool have = false; };
double Angle(const V3& a, const V3& b) { V3 x = cross(a, b); return std::atan2(Norm(x), dot(a, b)); }
void Run(const Script& s, Ctx& c) {
  int n = (int)s.L("n"); Settings st = MissionSettings(s, AllDefs(s)); std::vector<Track> T(n); std::vector<V3> ground(n);
  for (int d = 0; d < n; d++) {
    auto P = [&](const char* k, double def = 0) { return s.P(Fmt("s%d.%s", d, k), def); }; auto& a = st.sat[d]; const char* C = "CONTROLLED_ATTITUDE"; auto& t = T[d];
    t.m1 = (int)P("main", 1); t.m2 = (int)P("sub", 2); t.reject = (int)P("reject"); Axes((uint64_t)P("axes", 1), t.reject != 4, t.u, t.w); double k = P("scale", 1);
    a.Set(C, "main_mode", kModes[t.m1]).Set(C, "sub_mode", kModes[t.m2]).Vec(C, "main_pointing_direction_b", k * t.u).Vec(C, "sub_pointing_direction_b", (1 / k) * t.w).Set(C, "target_position_latitude_deg", P("lat")).Set(C, "target_position_longitude_deg", P("lon")).Set(C, "target_position_altitude_m", P("alt"));
    const double R = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f), la = P("lat") * M_PI / 180, lo = P("lon") * M_PI / 180, N = R / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
    ground[d] = Vec((N + P("alt")) * std::cos(la) * std::cos(lo), (N + P("alt")) * std::cos(la) * std::sin(lo), (N * (1 - e2) + P("alt")) * std::sin(la));
    for (int i = 0; i < 4; i++) t.q0[i] = atof(a.Get("ATTITUDE", Fmt("initial_quaternion_i2b(%d)", i)).c_str());
  }
  st.Write(); WriteGravityFiles(); s2e::randomization::global_randomization.SetSeed(s.L("seed", 1));
  Mission m(s, AllDefs(s)); bool thin = s.P("dt") > 2;
  auto look = [&](Case& cs, int d) { auto& t = T[d]; auto& o = cs.craft[d]->Dyn().GetOrbit(); t.pos = o.GetPosition_i_m(); t.vel = o.GetVelocity_i_m_s(); t.vecef = o.GetVelocity_ecef_m_s(); };
  // target directions recomputed from an orbit state, the ephemeris and the Earth rotation of now; angular misses of the two axes with their tolerances
  struct Miss { double main, sub, sep, tol1, tol2, score; };
  auto miss = [&](Case& cs, int d, const Quat& q, const V3& r, const V3& v, const V3& ve) {
    auto& t = T[d]; auto& g = cs.Global().GetCelestialInformation(); auto D = g.GetEarthRotation().GetDcmJ2000ToEcef(); double tol = 1e-8;
    auto dir = [&](int mode) {
      V3 x(0.0);
      if (mode == 1) x = g.GetPositionFromCenter_i_m("SUN") - r; if (mode == 2) x = g.GetPositionFromCenter_i_m("EARTH") - r; if (mode == 3) x = v; if (mode == 5) x = cross(r, v);
      if (mode == 4) { V3 y = D.Transpose() * ve; x = y; } if (mode == 6) { V3 y = D.Transpose() * ground[d]; x = y - r; tol += 1.5 / Norm(x); }
      return (1 / Norm(x)) * x;
    };
    V3 a = dir(t.m1), b = dir(t.m2), ub = RotB2I(q, t.u), wb = RotB2I(q, t.w); double e1 = Angle(ub, a); V3 bp = b - dot(b, a) * a, wp = wb - dot(wb, a) * a; double e2 = Norm(bp) < 1e-6 ? 0 : Angle(bp, wp), s2 = tol / std::max(1e-9, Norm(bp));
    return Miss{e1, e2, Angle(a, b), tol * 3, s2 * 3, std::max(e1 / tol, e2 / s2)};
  };
  // the attitude a spacecraft starts with when it is initialised by a pointing mode and then left to its dynamics
  m.ready = [&](Case& cs) {
    for (int d = 0; d < n; d++) {
      auto P = [&](const char* k) { return s.P(Fmt("s%d.%s", d, k)); }; if (!P("init")) continue; auto& t = T[d]; auto& att = cs.craft[d]->Dyn().GetAttitude(); Quat q = att.GetQuaternion_i2b(); V3 w = att.GetAngularVelocity_b_rad_s();
      if (t.reject || t.m1 == 0) { double dq = 0; for (int i = 0; i < 4; i++) dq = std::max(dq, std::fabs(q[i] - t.q0[i])); c.Check(dq < 1e-9, "initial-moves", "craft %d: %s / %s (rejected %d) does not start with the configured attitude", d, kModes[t.m1], kModes[t.m2], t.reject); continue; }
      if (P("att") == 1) continue;
      look(cs, d); Miss e = miss(cs, d, q, t.pos, t.vel, t.vecef);
      c.Check(e.main <= e.tol1, "initial-main-axis", "craft %d starts with its main axis %.6g rad away from its target (%s)", d, e.main, kModes[t.m1]);
      c.Check(e.sub <= e.tol2, "initial-sub-axis", "craft %d starts with its sub axis %.6g rad away from the closest position to its target (main %s, sub %s)", d, e.sub, kModes[t.m1], kModes[t.m2]);
      c.Check(Norm(w) < 1e-12, "initial-rate", "craft %d starts in a pointing attitude with a body rate of %.6g rad/s", d, Norm(w)); c.Probe("initial pointing attitude compared with the geometry");
    }
  };
  m.before = [&](Case& cs, long step) {
    for (auto& e : s.ev) if (e.t == step && e.kind == "mode" && e.I(0) < n) {
      auto* ca = dynamic_cast<ControlledAttitude*>(const_cast<s2e::dynamics::attitude::Attitude*>(&cs.craft[e.I(0)]->Dyn().GetAttitude())); if (!ca) continue; auto& t = T[e.I(0)];
      if (e.I(1) > 6 || e.I(2) > 6) continue; t.m1 = (int)e.I(1); t.m2 = (int)e.I(2); Axes((uint64_t)e.A(3), true, t.u, t.w);
      ca->SetMainMode(kEnum[t.m1]); ca->SetSubMode(kEnum[t.m2]); ca->SetMainTargetDirection_b(e.A(4, 1) * t.u); ca->SetSubTargetDirection_b((1 / e.A(4, 1)) * t.w); c.Count("mode switched during the run");
    }
    for (int d = 0; d < n; d++) look(cs, d);
  };
  m.after = [&](Case& cs, long step) {
    auto& time = cs.Time(); double now = time.GetElapsedTime_s();
    for (int d = 0; d < n; d++) {
      auto& t = T[d]; auto& cr = *cs.craft[d]; auto& att = cr.Dyn().GetAttitude(); Quat q = att.GetQuaternion_i2b(); V3 w = att.GetAngularVelocity_b_rad_s(); double nq = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
      c.Check(std::isfinite(nq) && Finite(w), "finite", "craft %d step %ld: attitude or rate is not a number", d, step); c.Hist(q[0]); c.Hist(w[2]);
      if (s.P(Fmt("s%d.att", d)) != 1) continue;  // free motion after a controlled start
      auto same = [&](const Quat& a, const Quat& b) { for (int i = 0; i < 4; i++) if (a[i] != b[i]) return false; return true; };
      if (t.reject) {
        double dq = 0; for (int i = 0; i < 4; i++) dq = std::max(dq, std::fabs(q[i] - t.q0[i]));
        c.Check(dq < 1e-9, "rejected-moves", "craft %d: a configuration without a unique solution (%s / %s, axes %.1f deg apart) still moves the attitude", d, kModes[t.m1], kModes[t.m2], Angle(t.u, t.w) * 180 / M_PI);
        c.Check(Norm(w) == 0, "rejected-rate", "craft %d: a rejected configuration reports a rate of %.6g rad/s", d, Norm(w)); c.Probe("rejected configuration keeps its attitude"); continue;
      }
      if (!time.GetAttitudePropagateFlag()) { if (t.have) c.Check(same(q, t.q), "moves-between", "craft %d step %ld: attitude changed although no attitude update is due", d, step); continue; }
      if (t.m1 == 0) {
        Quat want = t.have ? t.q : t.q0; double dq = 0; for (int i = 0; i < 4; i++) dq = std::max(dq, std::fabs(q[i] - want[i])); c.Check(dq < 1e-9, "inertial-moves", "craft %d step %ld: the attitude changes in inertial stabilisation", d, step); t.q = q; t.have = true; t.updates = 0; c.Probe("inertial hold"); continue;
      }
      c.Near(nq, 1, 1e-9, "unit", "length of the attitude quaternion");
      // targets from the state before or after the orbit update of this step
      auto& o = cr.Dyn().GetOrbit(); double best1 = 9, best2 = 9, best = 1e300, sep = 0, tol1 = 0, tol2 = 0;
      for (int k = 0; k < 2; k++) {
        Miss e = k ? miss(cs, d, q, o.GetPosition_i_m(), o.GetVelocity_i_m_s(), o.GetVelocity_ecef_m_s()) : miss(cs, d, q, t.pos, t.vel, t.vecef);
        if (e.score < best) { best = e.score; best1 = e.main; best2 = e.sub; sep = e.sep; tol1 = e.tol1; tol2 = e.tol2; }
      }
      c.Check(best1 <= tol1, "main-axis", "craft %d step %ld: the main axis misses its target (%s) by %.6g rad", d, step, kModes[t.m1], best1);
      c.Check(best2 <= tol2, "sub-axis", "craft %d step %ld: main %s, sub %s (%.2f deg apart): rotating the body about the main axis by %.6g rad would bring the sub axis closer to its target", d, step, kModes[t.m1], kModes[t.m2], sep * 180 / M_PI, best2);
      c.Probe("pointing compared with the geometry");
      auto I = att.GetInertiaTensor_b_kgm2(); V3 L = I * w; double E = 0.5 * dot(L, w); c.Near(att.GetTotalAngularMomentNorm_Nms(), Norm(L), 1e-9 * Norm(L) + 1e-15, "momentum-report", "angular momentum of the controlled attitude"); c.Near(att.GetKineticEnergy_J(), E, 1e-9 * E + 1e-18, "energy-report", "kinetic energy of the controlled attitude");
      t.updates++;
      if (t.updates > 1) {
        double dt = now - t.t; const Quat& p = t.q;  // rotation from previous to current attitude, body components
        double x = p[3] * q[0] - p[0] * q[3] - (p[1] * q[2] - p[2] * q[1]), y = p[3] * q[1] - p[1] * q[3] - (p[2] * q[0] - p[0] * q[2]), z = p[3] * q[2] - p[2] * q[3] - (p[0] * q[1] - p[1] * q[0]), sc = p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3];
        if (sc < 0) { x = -x; y = -y; z = -z; sc = -sc; } double sn = std::sqrt(x * x + y * y + z * z), th = 2 * std::atan2(sn, sc); V3 ph = sn > 0 ? (th / sn) * Vec(x, y, z) : V3(0.0);
        if (th < 2.0 && t.have) { double er = Norm(dt * w - ph), al = th * th * th / 10 + 1e-9; c.Check(er <= al, "rate", "craft %d step %ld: reported rate (%.9g, %.9g, %.9g) rad/s, but the attitude moved by (%.9g, %.9g, %.9g) rad in %.6g s", d, step, w[0], w[1], w[2], ph[0], ph[1], ph[2], dt); c.Probe("rate compared with the change of attitude"); if (p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3] < 0) c.Count("quaternion sign change"); }
      }
      t.q = q; t.t = now; t.have = true; c.State(Fmt("%d%d%d%d", t.m1, t.m2, (int)s.L(Fmt("s%d.orb", d)), (int)(sep * 6)));
    }
  };
  { Case cs(m.Hooks(), false); cs.Initialize(); cs.Main(); }
  (void)thin; c.sim_time_s += s.P("dt") * s.P("steps"); c.nontrivial = c.probes.size() > 0;
}
Registrar reg{[] { Property p; p.id = "Q02"; p.generate = Gen; p.execute = Run; p.quick_runs = 900; p.thorough_runs = 40000; p.states_measure = "distinct (main mode, sub mode, orbit propagator, target separation) combinations";
  p.real = "SimulationCase, Spacecraft, ControlledAttitude, orbit propagators, celestial information, Earth rotation, geodetic conversion"; p.stub = "ephemeris (SPICE) library"; return p; }()};
}  // namespace
