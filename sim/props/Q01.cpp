// Attitude propagators under irregular update schedules: torque steps, wheel momentum, stalls, split updates, inertia changes. The whole history is
// followed by an independent long double integration with steps far below those of the code under test.
#include <cmath>
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include "world/world.hpp"
using namespace sim;
namespace {
typedef long double R;
struct M3 { R a[3][3]; };
struct S13 { R w[3], wc[3], q[4], th[3]; };
M3 Inv(const M3& m) {
  M3 r; R d = 0; for (int i = 0; i < 3; i++) d += m.a[0][i] * (m.a[1][(i + 1) % 3] * m.a[2][(i + 2) % 3] - m.a[1][(i + 2) % 3] * m.a[2][(i + 1) % 3]);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[j][i] = (m.a[(i + 1) % 3][(j + 1) % 3] * m.a[(i + 2) % 3][(j + 2) % 3] - m.a[(i + 1) % 3][(j + 2) % 3] * m.a[(i + 2) % 3][(j + 1) % 3]) / d;
  return r;
}
void Mul(const M3& m, const R* x, R* y) { for (int i = 0; i < 3; i++) y[i] = m.a[i][0] * x[0] + m.a[i][1] * x[1] + m.a[i][2] * x[2]; }
void Cross(const R* a, const R* b, R* y) { for (int i = 0; i < 3; i++) y[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; }
struct Model {
  bool canti = false; M3 I, Iinv, Ic; R k = 0, cc = 0; R tau[3] = {0, 0, 0}, h[3] = {0, 0, 0};
  // total: (I+Ic) w' + Ic wc' = tau - w x (I w + h);  panel: Ic (w' + wc') = -Ic (k th + c wc)
  void D(const S13& s, S13& d) const {
    R L[3], g[3], n[3]; Mul(I, s.w, L); for (int i = 0; i < 3; i++) L[i] += h[i];
    Cross(s.w, L, g); for (int i = 0; i < 3; i++) n[i] = tau[i] - g[i];
    R f[3], tf[3]; for (int i = 0; i < 3; i++) f[i] = canti ? k * s.th[i] + cc * s.wc[i] : 0;
    if (canti) { Mul(Ic, f, tf); for (int i = 0; i < 3; i++) n[i] += tf[i]; }
    Mul(Iinv, n, d.w);
    for (int i = 0; i < 3; i++) { d.wc[i] = canti ? -f[i] - d.w[i] : 0; d.th[i] = canti ? s.wc[i] : 0; }
    const R *w = s.w, *q = s.q;
    d.q[0] = (w[2] * q[1] - w[1] * q[2] + w[0] * q[3]) / 2; d.q[1] = (-w[2] * q[0] + w[0] * q[2] + w[1] * q[3]) / 2;
    d.q[2] = (w[1] * q[0] - w[0] * q[1] + w[2] * q[3]) / 2; d.q[3] = (-w[0] * q[0] - w[1] * q[1] - w[2] * q[2]) / 2;
  }
  void Step(S13& s, R dt) const {
    const int N = sizeof(S13) / sizeof(R); S13 k1, k2, k3, k4, t; auto P = [](S13& x) { return (R*)&x; };
    D(s, k1); for (int i = 0; i < N; i++) P(t)[i] = P(s)[i] + dt / 2 * P(k1)[i];
    D(t, k2); for (int i = 0; i < N; i++) P(t)[i] = P(s)[i] + dt / 2 * P(k2)[i];
    D(t, k3); for (int i = 0; i < N; i++) P(t)[i] = P(s)[i] + dt * P(k3)[i];
    D(t, k4); for (int i = 0; i < N; i++) P(s)[i] += dt / 6 * (P(k1)[i] + 2 * P(k2)[i] + 2 * P(k3)[i] + P(k4)[i]);
    R n = 0; for (R x : s.q) n += x * x; n = std::sqrt(n); for (R& x : s.q) x /= n;
  }
  void Go(S13& s, R dt, R step) const { long n = std::max(1l, (long)std::ceil((double)(dt / step - 1e-9L))); for (long i = 0; i < n; i++) Step(s, dt / n); }
  void Momentum(const S13& s, R* H) const {  // inertial
    R L[3]; Mul(I, s.w, L); for (int i = 0; i < 3; i++) L[i] += h[i];
    V3 b = RotB2I(Quat((double)s.q[0], (double)s.q[1], (double)s.q[2], (double)s.q[3]), Vec((double)L[0], (double)L[1], (double)L[2])); for (int i = 0; i < 3; i++) H[i] = b[i];
  }
};
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; bool canti = r.Chance(0.35); s.p["canti"] = canti; s.p["step"] = r.Pick<double>({0.001, 0.01, 0.05, 0.1, 0.5}); double h = s.P("step");
  s.p["rate"] = r.Chance(0.1) ? 0 : r.LogUni(1e-5, 0.15 / h > 3 ? 3 : 0.15 / h); s.p["shape"] = (double)r.Int(1, 1000000000); s.p["size"] = r.LogUni(1e-3, 1e4); s.p["free"] = r.Chance(0.35);
  s.p["wn"] = r.LogUni(0.01, 0.3) / h; s.p["zeta"] = r.Chance(0.2) ? 0 : r.Uni(0, 0.5); s.p["icr"] = r.LogUni(1e-3, 0.5); s.p["split"] = (double)r.Int(1, 5);
  long n = r.Int(3, thorough ? 120 : 40);
  for (long t = 1; t <= n; t++) {
    double iv = r.Chance(0.45) ? (double)r.Int(1, 12) : r.Chance(0.7) ? r.Uni(0.05, 12) : r.Chance(0.5) ? r.Uni(0.01, 0.99) : r.Uni(20, 120);  // in integration steps
    s.Add(t, "update", {iv});
    if (!s.L("free") && r.Chance(0.4)) { V3 v = r.LogUni(1e-4, 1) * RandDir(r); s.Add(t, r.Chance(0.3) ? "add" : "torque", {v[0], v[1], v[2]}); }
    if (!s.L("free") && r.Chance(0.1)) { V3 v = r.LogUni(1e-3, 1) * RandDir(r); s.Add(t, "wheel", {v[0], v[1], v[2]}); }
    if (!canti && r.Chance(0.04)) s.Add(t, "inertia", {r.Uni(0.9, 1.1), r.Uni(0.9, 1.1), r.Uni(0.9, 1.1)});
  }
  s.SortEvents(); return s;
}
void Run(const Script& s, Ctx& c) {
  Rng r(s.L("shape", 1)); bool canti = s.L("canti"); double h = s.P("step", 0.1), sz = s.P("size", 1), rate = s.P("rate");
  // inertia: rotated diagonal obeying the triangle inequality
  double d[3] = {sz, sz * r.Uni(0.4, 2.0), 0}; d[2] = (d[0] + d[1]) * r.Uni(0.4, 0.97); if (d[2] < std::fabs(d[0] - d[1])) d[2] = 1.1 * std::fabs(d[0] - d[1]);
  Quat qi = r.Chance(0.3) ? Quat(0, 0, 0, 1) : RandQuat(r); s2e::math::Matrix<3, 3> I(0.0), Ic(0.0); double icr = s.P("icr", 0.1);
  for (int k = 0; k < 3; k++) { V3 e(0.0); e[k] = 1; V3 a = RotB2I(qi, e); double dc = d[k] * icr * r.Uni(0.2, 1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { I[i][j] += d[k] * a[i] * a[j]; Ic[i][j] += dc * a[i] * a[j]; } }
  double imin = std::min(d[0], std::min(d[1], d[2])), imax = std::max(d[0], std::max(d[1], d[2]));
  Quat q0 = RandQuat(r); V3 w0 = rate * RandDir(r); double wn = s.P("wn", 1), zeta = s.P("zeta", 0.1); double tscale = imin * (rate + 0.01 / h) * std::min(0.3, rate * h + 0.01);
  using namespace s2e::dynamics::attitude; auto make = [&](s2e::math::Matrix<3, 3>& J, const char* name) -> Attitude* {
    if (canti) return new AttitudeWithCantileverVibration(w0, q0, J, Ic, zeta, wn, V3(0.0), h, name); return new AttitudeRk4(w0, q0, J, V3(0.0), h, name); };
  s2e::math::Matrix<3, 3> J1 = I, J2 = I; std::unique_ptr<Attitude> A(make(J1, "a")), B(make(J2, "b"));
  Model m; m.canti = canti; m.k = (R)wn * wn; m.cc = 2 * (R)zeta * wn; auto load = [&] { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { m.I.a[i][j] = J1[i][j]; m.Ic.a[i][j] = Ic[i][j]; } m.Iinv = Inv(m.I); }; load();
  S13 f{}, g{}; for (int i = 0; i < 3; i++) f.w[i] = w0[i]; for (int i = 0; i < 4; i++) f.q[i] = q0[i]; g = f; R fine = h / 16;
  V3 tau(0.0), wheel(0.0), H0(0.0); double E0 = 0; double t = 0; long split = std::max(1l, s.L("split", 1)), k = 0; R extra = 0, Hl[3]; bool torque_free = true, touched = false; m.Momentum(f, Hl); H0 = Vec((double)Hl[0], (double)Hl[1], (double)Hl[2]);
  { V3 L = I * w0; E0 = 0.5 * dot(L, w0); }
  auto report = [&](Attitude& a, const s2e::math::Matrix<3, 3>& J, const char* who) {
    V3 w = a.GetAngularVelocity_b_rad_s(); Quat q = a.GetQuaternion_i2b(); double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    c.Check(Finite(w) && std::isfinite(n), "finite", "%s: rate or quaternion is not a number after update %ld (t=%.9g)", who, k, t);
    c.Near(n, 1, 1e-9, "unit", "length of the attitude quaternion");
    V3 L = J * w; double E = 0.5 * dot(L, w); for (int i = 0; i < 3; i++) L[i] += wheel[i];
    c.Near(a.GetTotalAngularMomentNorm_Nms(), Norm(L), 1e-9 * (Norm(L) + imax * Norm(w) + Norm(wheel)) + 1e-15, "momentum-report", "reported total angular momentum");
    c.Near(a.GetKineticEnergy_J(), E, 1e-9 * E + 1e-18, "energy-report", "reported kinetic energy");
  };
  report(*A, J1, "initial");
  size_t e = 0; std::vector<Event> ev = s.ev;
  for (size_t i = 0; i < ev.size(); i++) {
    if (ev[i].kind != "update") continue;
    long tick = ev[i].t; double iv = std::max(1e-4, ev[i].A(0)) * h; k++; bool slew = false; s2e::math::Matrix<3, 3> Jold = J1;
    for (e = 0; e < ev.size(); e++) if (ev[e].t == tick) {
      V3 v = tscale * Vec(ev[e].A(0), ev[e].A(1), ev[e].A(2));
      if (ev[e].kind == "torque") { tau = v; A->SetTorque_b_Nm(tau); if (B) B->SetTorque_b_Nm(tau); c.Count("torque change"); torque_free = torque_free && Norm(tau) == 0; }
      if (ev[e].kind == "add") { for (int j = 0; j < 3; j++) tau[j] += v[j]; A->AddTorque_b_Nm(v); if (B) B->AddTorque_b_Nm(v); c.Count("torque added"); torque_free = torque_free && Norm(tau) == 0; }
      if (ev[e].kind == "wheel") { wheel = (imin * (rate + 0.001 / h)) * Vec(ev[e].A(0), ev[e].A(1), ev[e].A(2)); A->SetRwAngularMomentum_b_Nms(wheel); if (B) B->SetRwAngularMomentum_b_Nms(wheel); c.Count("wheel momentum change"); touched = true; }
      if (ev[e].kind == "inertia" && !canti) { slew = true; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double x = std::sqrt(std::fabs(ev[e].A(a, 1) * ev[e].A(b, 1))); J1[a][b] *= x; J2[a][b] *= x; } c.Count("inertia change"); }
    }
    for (int j = 0; j < 3; j++) { m.tau[j] = tau[j]; m.h[j] = wheel[j]; }
    R Hb[3]; m.Momentum(f, Hb);
    if (iv > 15 * h) c.Count("stalled update"); if (std::fabs(std::remainder(iv, h)) > 1e-6) c.Count("update off the integration grid");
    double t1 = t + iv;
    A->Propagate(t1);
    if (B) for (long j = 1; j <= split; j++) B->Propagate(j == split ? t1 : t + iv * j / split);
    R dt = (R)t1 - (R)t;
    if (!slew) {
      m.Go(f, dt, fine); m.Go(g, dt, h);
    } else {
      // inertia changed during this update: total momentum balance to first order, then follow on from the reported state
      R Ha[3]; V3 w = A->GetAngularVelocity_b_rad_s(); Quat q = A->GetQuaternion_i2b(); double dJ = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) dJ += std::fabs(J1[a][b] - Jold[a][b]);
      load(); S13 now = f; for (int j = 0; j < 3; j++) now.w[j] = w[j]; for (int j = 0; j < 4; j++) now.q[j] = q[j]; m.Momentum(now, Ha);
      V3 dH = Vec((double)(Ha[0] - Hb[0]), (double)(Ha[1] - Hb[1]), (double)(Ha[2] - Hb[2])); double wm = std::max(Norm(w), std::sqrt((double)(f.w[0] * f.w[0] + f.w[1] * f.w[1] + f.w[2] * f.w[2])));
      double tol = 6 * dJ * wm * std::min(2.0, wm * iv * imax / imin) + 1e-6 * imax * wm + (1 + wm * iv) * Norm(tau) * iv * 1.2 + 2 * Norm(wheel) * std::min(2.0, wm * iv) * dJ / imin + (double)extra * imax * 4 + 1e-12;
      c.Check(Norm(dH) <= tol, "inertia-change", "angular momentum changed by %.6g Nms while the inertia changed (allowed %.6g)", Norm(dH), tol);
      f = now; g = now; extra = 0; B.reset(); touched = true; torque_free = false;
    }
    t = t1; report(*A, J1, "update");
    V3 w = A->GetAngularVelocity_b_rad_s(); Quat q = A->GetQuaternion_i2b();
    if (!slew) {
      double err = 0, dev = 0, wm = 0; for (int j = 0; j < 3; j++) { err = std::max(err, std::fabs((double)(f.w[j] - g.w[j]))); dev = std::max(dev, std::fabs(w[j] - (double)f.w[j])); wm = std::max(wm, std::fabs((double)f.w[j])); }
      double eq = 0, dq = 0; for (int j = 0; j < 4; j++) { eq = std::max(eq, std::fabs((double)(f.q[j] - g.q[j]))); dq = std::max(dq, std::fabs(q[j] - (double)f.q[j])); }
      extra = std::max(extra, (R)err); double floor = 1e-10 * k + 1e-7 * std::pow(wm * h * imax / imin + (canti ? wn * h : 0), 3);
      double tw = 30 * (double)extra + floor * (wm + 1e-3 * rate + 1e-12), tq = 30 * eq + floor + 30 * (double)extra * t * 0 + 1e-9;
      c.Check(dev <= tw, "rate", "body rate after update %ld at t=%.9g deviates by %.6g rad/s from the equations of motion (allowed %.3g)%s", k, t, dev, tw, iv < h ? ", update shorter than the integration step" : "");
      c.Check(dq <= tq, "attitude", "quaternion after update %ld at t=%.9g deviates by %.6g from the equations of motion (allowed %.3g)", k, t, dq, tq);
      if (B) {
        V3 w2 = B->GetAngularVelocity_b_rad_s(); Quat q2 = B->GetQuaternion_i2b(); double d2 = 0, e2 = 0; for (int j = 0; j < 3; j++) d2 = std::max(d2, std::fabs(w2[j] - w[j])); for (int j = 0; j < 4; j++) e2 = std::max(e2, std::fabs(q2[j] - q[j]));
        c.Check(d2 <= 2 * tw && e2 <= 2 * tq, "split", "%ld updates instead of one over the same interval change the rate by %.6g (allowed %.3g), the quaternion by %.6g (allowed %.3g)", split, d2, 2 * tw, e2, 2 * tq);
        report(*B, J2, "split update");
      }
      if (torque_free && !touched && !canti) {
        V3 L = J1 * w; V3 Hi = RotB2I(q, L); double tolr = 4 * imax * (tw + tq * (wm + 1e-15)) + 1e-10 * Norm(L);
        c.Check(Norm(Hi - H0) <= tolr, "momentum-conserved", "torque-free inertial angular momentum changed by %.6g Nms of %.6g", Norm(Hi - H0), Norm(H0));
        c.Near(A->GetKineticEnergy_J(), E0, 4 * imax * tw * (wm + 1e-15) + 1e-9 * E0 + 1e-18, "energy-conserved", "torque-free kinetic energy"); c.Probe("torque-free conservation");
      }
      c.Probe("state compared with the equations of motion");
    }
    c.Hist(w[0]); c.Hist(q[3]); c.State(Fmt("%d%ld%.2f", (int)canti, std::min(20l, (long)(iv / h)), std::remainder(iv / h, 1)));
  }
  c.sim_time_s += t; c.nontrivial = k > 1;
}
Registrar reg{[] { Property p; p.id = "Q01"; p.generate = Gen; p.execute = Run; p.quick_runs = 1500; p.thorough_runs = 60000; p.states_measure = "distinct (model, steps per update, grid offset) combinations";
  p.real = "AttitudeRk4, AttitudeWithCantileverVibration, numerical integrators, quaternion and matrix library"; p.stub = "torque and wheel inputs are generated"; 
  p.level_note = "tolerances follow the truncation error of a fourth order integration with the configured step, measured by the harness's own integration"; return p; }()};
}  // namespace
