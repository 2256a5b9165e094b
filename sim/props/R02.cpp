// Formations in which spacecraft leave and join in the middle of the run: all pairwise relative states are recomputed from the absolute ones at every step.
#include <cmath>
#include <math_physics/randomization/global_randomization.hpp>
#include "world/mission.hpp"
using namespace sim;
namespace {
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; MissionOpt o; o.max_craft = 5; o.max_steps = thorough ? 200 : 40; o.parts_mask = 0; o.noise = 0; o.ground = false; GenTiming(r, s, o); long n = r.Int(1, 5); if (n < 2 && r.Chance(0.8)) n = 2; s.p["n"] = n;
  for (int d = 0; d < n; d++) { GenCraft(r, s, d, o); s.p[Fmt("s%d.parts", d)] = 0; if (r.Chance(0.7)) s.p[Fmt("s%d.dist", d)] = 0; s.p[Fmt("s%d.follow", d)] = d > 0 && r.Chance(0.3) ? r.LogUni(0.01, 1e4) : 0; s.p[Fmt("s%d.twin", d)] = d > 0 && r.Chance(0.05); s.p[Fmt("s%d.close", d)] = d > 0 && r.Chance(0.3) ? r.LogUni(0.1, 1e5) : 0; }
  std::vector<int> state(n, 1); long t = 0;
  while (r.Chance(0.75) && t < s.L("steps")) { t += r.Int(1, std::max(1l, s.L("steps") / 4)); int d = (int)r.Int(0, n - 1); s.Add(t, state[d] ? "leave" : "join", {(double)d}); state[d] = !state[d]; }
  s.SortEvents(); return s;
}
void Run(const Script& s, Ctx& c) {
  int n = (int)s.L("n", 1); Settings st = MissionSettings(s, AllDefs(s), false); Rng rr(s.L("seed", 1)); std::vector<bool> follower(n, false);
  for (int d = 1; d < n; d++) { auto& o = st.sat[d];
    double close = s.P(Fmt("s%d.close", d)), fol = s.P(Fmt("s%d.follow", d));
    if (close > 0 && st.sat[0].Get("ORBIT", "propagate_mode") == "RK4") { o.Set("ORBIT", "propagate_mode", "RK4").Set("ORBIT", "initialize_mode", st.sat[0].Get("ORBIT", "initialize_mode")); V3 dir = close * RandDir(rr); for (int i = 0; i < 3; i++) { std::string k = Fmt("initial_position_i_m(%d)", i), v = Fmt("initial_velocity_i_m_s(%d)", i); o.Set("ORBIT", k, atof(st.sat[0].Get("ORBIT", k).c_str()) + dir[i]); o.Set("ORBIT", v, st.sat[0].Get("ORBIT", v)); } for (const char* k : {"semi_major_axis_m", "eccentricity", "inclination_rad", "raan_rad", "argument_of_perigee_rad", "epoch_jday"}) o.Set("ORBIT", k, st.sat[0].Get("ORBIT", k)); }
    if (fol > 0) { follower[d] = true; V3 dir = fol * RandDir(rr); o.Set("ORBIT", "propagate_mode", "RELATIVE").Set("ORBIT", "reference_satellite_id", 0.0).Set("ORBIT", "relative_orbit_update_method", (double)rr.Int(0, 1)).Vec("ORBIT", "initial_relative_position_lvlh_m", dir).Vec("ORBIT", "initial_relative_velocity_lvlh_m_s", 1e-4 * dir); }
  }
  st.Write(); WriteGravityFiles(); s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); Mission m(s, AllDefs(s)); auto hk = m.Hooks(); hk.build = nullptr; bool chief_fixed = false; for (bool f : follower) chief_fixed = chief_fixed || f;
  size_t k = 0; long pairs = 0, changes = 0; std::vector<int> last_alive;
  hk.ready = [&](Case& cs) { cs.Log().ClearLogList(); cs.relative.LogSetup(cs.Log()); };
  hk.before = [&](Case& cs, long step) {
    for (; k < s.ev.size() && s.ev[k].t <= step; k++) { auto& e = s.ev[k]; int d = (int)e.I(0); if (d < 0 || d >= n) continue;
      if (e.kind == "leave") { if (!cs.craft[d] || (d == 0 && chief_fixed)) continue; cs.craft[d].reset(); c.Count("spacecraft left"); changes++; }
      if (e.kind == "join") { if (cs.craft[d]) continue; cs.craft[d].reset(new Craft(&cs.Conf(), &cs.Global(), d, &cs.relative, hk.build)); c.Count("spacecraft joined"); changes++; } }
  };
  hk.after = [&](Case& cs, long step) {
    auto& R = cs.relative; std::string alive; for (int d = 0; d < n; d++) alive += cs.craft[d] ? '1' : '0'; c.State(alive + (follower.size() > 1 && follower[1] ? "f" : ""));
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
      V3 p = R.GetRelativePosition_i_m(a, b), v = R.GetRelativeVelocity_i_m_s(a, b), pr = R.GetRelativePosition_rtn_m(a, b), vr = R.GetRelativeVelocity_rtn_m_s(a, b); double dist = R.GetRelativeDistance_m(a, b); Quat q = R.GetRelativeAttitudeQuaternion(a, b);
      if (!cs.craft[a] || !cs.craft[b]) continue;
      pairs++; auto &A = cs.craft[a]->Dyn(), &B = cs.craft[b]->Dyn(); V3 ra = A.GetOrbit().GetPosition_i_m(), rb = B.GetOrbit().GetPosition_i_m(), va = A.GetOrbit().GetVelocity_i_m_s(), vb = B.GetOrbit().GetVelocity_i_m_s(), dp = ra - rb, dv = va - vb;
      std::string w = Fmt("step %ld, craft %d seen from %d of %s", step, a, b, alive.c_str()); double tp = 1e-12 * (Norm(ra) + Norm(rb)), tv = 1e-12 * (Norm(va) + Norm(vb));
      NearV(c, p, dp, tp, "position-i", w + ": relative position"); NearV(c, v, dv, tv, "velocity-i", w + ": relative velocity"); c.Near(dist, Norm(dp), tp, "distance", w + ": distance");
      V3 h = cross(rb, vb), x = (1 / Norm(rb)) * rb, z = (1 / Norm(h)) * h, y = cross(z, x), om = (1 / dot(rb, rb)) * h, dw = dv - cross(om, dp);
      double fr = 1e-7; NearV(c, pr, Vec(dot(dp, x), dot(dp, y), dot(dp, z)), tp + fr * Norm(dp), "position-rtn", w + ": relative position in the orbital frame"); NearV(c, vr, Vec(dot(dw, x), dot(dw, y), dot(dw, z)), tv + fr * (Norm(dw) + Norm(dv)), "velocity-rtn", w + ": relative velocity in the orbital frame");
      c.Near(Norm(pr), dist, 1e-9 * dist + tp, "distance-rtn", w + ": length of the position in the orbital frame");
      Quat qa = A.GetAttitude().GetQuaternion_i2b(), qb = B.GetAttitude().GetQuaternion_i2b(); double nq = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); c.Near(nq, 1, 1e-9, "attitude-unit", w + ": length of the relative quaternion");
      for (int i = 0; i < 3; i++) { V3 e(0.0); e[i] = 1; NearV(c, RotI2B(q, RotI2B(qb, e)), RotI2B(qa, e), 1e-8, "attitude", w + ": relative attitude"); }
      V3 p2 = R.GetRelativePosition_i_m(b, a), v2 = R.GetRelativeVelocity_i_m_s(b, a); NearV(c, p2, -1.0 * p, tp, "swap-position", w + ": swapped pair"); NearV(c, v2, -1.0 * v, tv, "swap-velocity", w + ": swapped pair"); c.Near(R.GetRelativeDistance_m(b, a), dist, tp, "swap-distance", w + ": swapped pair");
      Quat q2 = R.GetRelativeAttitudeQuaternion(b, a); for (int i = 0; i < 3; i++) { V3 e(0.0); e[i] = 1; NearV(c, RotI2B(q2, RotI2B(q, e)), e, 1e-8, "swap-attitude", w + ": swapped pair"); }
      if (a == b) c.Check(Norm(p) == 0 && Norm(v) == 0 && dist == 0 && Norm(pr) == 0 && Norm(vr) == 0, "self", "%s: not at the origin of itself", w.c_str());
      c.Check(R.GetReferenceSatDynamics(a) == &cs.craft[a]->Dyn(), "registry", "%s: dynamics registered for craft %d are not its own", w.c_str(), a);
      c.Hist(p[0]); c.Hist(vr[1]); c.Hist(q[2]);
    }
  };
  { Case cs(hk, true); cs.Initialize(); cs.Main(); c.sim_time_s = cs.Time().GetElapsedTime_s(); }
  c.Probe("pairs compared"); c.Count("pairs compared", pairs); c.nontrivial = n > 1 && pairs > 1;
}
Registrar reg{[] { Property p; p.id = "R02"; p.generate = Gen; p.execute = Run; p.quick_runs = 900; p.thorough_runs = 20000; p.states_measure = "distinct sets of present spacecraft";
  p.real = "complete simulation case, spacecraft, all dynamics, RelativeInformation, relative orbits"; p.stub = "CSPICE, NRLMSISE-00 stand-ins; harness calls RelativeInformation::Update after the spacecraft, as the sample case does"; p.level_note = "pairs of present spacecraft only"; return p; }()};
}  // namespace
