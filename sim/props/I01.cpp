// Numerical integration inside a process that changes step widths, jumps in time, is corrected from outside, is stopped and rebuilt from its saved time and
// state, and asks for states between the steps. Every single step is compared with an own solution of the same equation in many small steps.
#include <algorithm>
#include <cmath>
#include <math_physics/math/ordinary_differential_equation.hpp>
#include <math_physics/numerical_integration/numerical_integrator_manager.hpp>
#include <memory>
#include "core/sim.hpp"
using namespace sim;
namespace ni = s2e::numerical_integration;
namespace {
template <size_t N> using V = s2e::math::Vector<N>;
template <size_t N> double Size(const V<N>& v) { double s = 0; for (size_t i = 0; i < N; i++) s += v[i] * v[i]; return std::sqrt(s); }
template <size_t N> bool Ok(const V<N>& v) { return std::isfinite(Size(v)); }
// y' = A y + B sin(C y) + forcing(t): non-linear, coupled, explicit in time; rate = size of its derivatives
template <size_t N>
struct Plant : ni::InterfaceOde<N> {
  double A[N][N] = {}, B[N][N] = {}, C[N][N] = {}, g[N], w[N], p[N], k = 0; double rate = 1; mutable double lo = 1e300, hi = -1e300; mutable long calls = 0; bool flat = false, line = false;
  Plant(uint64_t seed, double rate, bool flat, bool line) : rate(rate), flat(flat), line(line) {
    Rng r(seed); double s = rate / std::sqrt((double)N); for (size_t i = 0; i < N; i++) { for (size_t j = 0; j < N; j++) { A[i][j] = s * r.Uni(-1, 1); B[i][j] = s * r.Uni(-1, 1); C[i][j] = r.Uni(-1.5, 1.5) / std::sqrt((double)N); } g[i] = rate * r.Uni(0.5, 2) * r.Sign(); w[i] = rate * r.Uni(0.3, 1.5); p[i] = r.Uni(0, 6.3); } k = r.Uni(-1, 1) * rate;
  }
  void F(double t, const double* y, double* d) const {
    if (flat) { for (size_t i = 0; i < N; i++) d[i] = 0; return; }
    if (line) { for (size_t i = 0; i < N; i++) d[i] = g[i]; return; }
    double z[N]; for (size_t i = 0; i < N; i++) { double x = 0; for (size_t j = 0; j < N; j++) x += C[i][j] * y[j]; z[i] = std::sin(x + 0.5); }
    for (size_t i = 0; i < N; i++) { d[i] = g[i] * std::sin(w[i] * t + p[i]); for (size_t j = 0; j < N; j++) d[i] += A[i][j] * y[j] + B[i][j] * z[j]; }
  }
  V<N> DerivativeFunction(const double t, const V<N>& s) const override { double y[N], d[N]; for (size_t i = 0; i < N; i++) y[i] = s[i]; F(t, y, d); V<N> o(0.0); for (size_t i = 0; i < N; i++) o[i] = d[i]; lo = std::min(lo, t); hi = std::max(hi, t); calls++; return o; }
  void Watch() { lo = 1e300; hi = -1e300; calls = 0; }
  V<N> Solve(double t, const V<N>& s, double h) const {  // reference: many small classical steps
    const int M = std::max(20, (int)std::ceil(std::fabs(h) * rate * 150)); double q = h / M, y[N], a[N], b[N], c[N], d[N], u[N]; for (size_t i = 0; i < N; i++) y[i] = s[i];
    for (int m = 0; m < M; m++) { double x = t + m * q; F(x, y, a); for (size_t i = 0; i < N; i++) u[i] = y[i] + q / 2 * a[i]; F(x + q / 2, u, b); for (size_t i = 0; i < N; i++) u[i] = y[i] + q / 2 * b[i]; F(x + q / 2, u, c); for (size_t i = 0; i < N; i++) u[i] = y[i] + q * c[i]; F(x + q, u, d); for (size_t i = 0; i < N; i++) y[i] += q / 6 * (a[i] + 2 * b[i] + 2 * c[i] + d[i]); }
    V<N> o(0.0); for (size_t i = 0; i < N; i++) o[i] = y[i]; return o;
  }
};
template <size_t N>
struct Old : s2e::math::OrdinaryDifferentialEquation<N> {
  const Plant<N>& p; Old(double h, const Plant<N>& p) : s2e::math::OrdinaryDifferentialEquation<N>(h), p(p) {}
  void DerivativeFunction(double t, const V<N>& s, V<N>& d) override { d = p.DerivativeFunction(t, s); }
};
const char* kName[] = {"Runge-Kutta 4", "Runge-Kutta-Fehlberg", "Dormand-Prince 5", "simple equation"};
const int kOrder[] = {4, 5, 5, 4}; const double kErr[] = {0.15, 0.005, 0.008, 0.15}, kMid[] = {0, 0.005, 0.008};
template <size_t N>
struct Unit {  // one integrator and its owner
  int kind = 0, via = 0; const Plant<N>* p = nullptr; double t = 0, h = 1, mag = 1; V<N> y{0.0}; std::shared_ptr<ni::NumericalIntegrator<N>> it; std::shared_ptr<ni::EmbeddedRungeKutta<N>> emb; std::unique_ptr<Old<N>> old; long steps = 0;
  void Build() {
    it.reset(); emb.reset(); old.reset();
    if (kind == 3) { old.reset(new Old<N>(h, *p)); old->Setup(t, y); return; }
    if (via) { ni::NumericalIntegratorManager<N> m(h, *p, kind == 0 ? ni::NumericalIntegrationMethod::kRk4 : kind == 1 ? ni::NumericalIntegrationMethod::kRkf : ni::NumericalIntegrationMethod::kDp5); it = m.GetIntegrator(); emb = std::dynamic_pointer_cast<ni::EmbeddedRungeKutta<N>>(it); }
    else if (kind == 0) it = std::make_shared<ni::RungeKutta4<N>>(h, *p); else if (kind == 1) it = emb = std::make_shared<ni::RungeKuttaFehlberg<N>>(h, *p); else it = emb = std::make_shared<ni::DormandPrince5<N>>(h, *p);
    it->SetState(t, y);
  }
  V<N> State() const { if (!old) return it->GetState(); const Old<N>& o = *old; return o.GetState(); }
  void Put(double t2, const V<N>& y2) { t = t2; y = y2; if (old) old->Setup(t, y); else it->SetState(t, y); }
  void Width(double h2) { h = h2; if (old) old->SetStepWidth(h); else it->SetStepWidth(h); }
  void Step() { if (old) { if (steps & 1) ++*old; else old->Update(); } else it->Integrate(); steps++; }
};
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["dim"] = (double)r.Int(0, 2); s.p["ode"] = (double)r.Int(1, 1000000000); s.p["rate"] = r.LogUni(1e-3, 10); s.p["kind"] = (double)r.Int(0, 3); s.p["kind2"] = (double)r.Int(0, 3); s.p["via"] = (double)r.Int(0, 1); s.p["lh"] = r.LogUni(0.01, 0.3); s.p["t0"] = r.Chance(0.3) ? 0 : r.Uni(-100, 100); s.p["shape"] = r.Chance(0.85) ? 0 : (double)r.Int(1, 2); s.p["steps"] = r.Int(2, thorough ? 120 : 40); s.p["geo"] = (double)r.Int(1, 1000000000); s.p["mag"] = r.LogUni(0.01, 2);
  for (long e = r.Int(0, 14), i = 0; i < e; i++) {
    long t = r.Int(1, s.L("steps")), u = r.Int(0, 1);
    switch (r.Int(0, 6)) {
      case 0: s.Add(t, "jump", {(double)u, r.Uni(-50, 50), (double)r.Int(1, 1000000000)}); break;
      case 1: s.Add(t, "width", {(double)u, r.LogUni(0.3, 2) * (r.Chance(0.2) ? -1 : 1)}); break;
      case 2: case 3: s.Add(t, "control", {(double)u, r.LogUni(0.5, 1.8)}); break;
      case 4: s.Add(t, "restart", {(double)u}); break;
      case 5: s.Add(t, "correct", {(double)u, (double)r.Int(1, 1000000000)}); break;
      default: s.Add(t, "swap", {(double)u, (double)r.Int(0, 3), (double)r.Int(0, 1)});
    }
  }
  s.SortEvents(); return s;
}
template <size_t N>
void Drive(const Script& s, Ctx& c) {
  double rate = s.P("rate", 1), mag = s.P("mag", 1); int shape = (int)s.L("shape"); Plant<N> plant((uint64_t)s.L("ode", 1), rate, shape == 1, shape == 2); Rng q((uint64_t)s.L("geo", 1)); auto any = [&](Rng& r) { V<N> y(0.0); for (size_t i = 0; i < N; i++) y[i] = mag * r.Gauss(); return y; };
  Unit<N> U[2]; for (int i = 0; i < 2; i++) { auto& u = U[i]; u.kind = (int)(s.L(i ? "kind2" : "kind") & 3); u.via = (int)s.L("via"); u.p = &plant; u.t = s.P("t0"); u.h = s.P("lh", 0.1) / rate; u.y = any(q); u.Build(); }
  size_t next = 0; double covered = 0; long steps = std::max(1L, s.L("steps", 3));
  for (long n = 1; n <= steps; n++) {
    for (; next < s.ev.size() && s.ev[next].t <= n; next++) {
      auto& e = s.ev[next]; auto& u = U[e.I(0) & 1]; c.Count(e.kind);
      if (e.kind == "jump") { Rng r((uint64_t)e.I(2)); u.Put(u.t + e.A(1) / rate, any(r)); }
      if (e.kind == "correct") { Rng r((uint64_t)e.I(1)); u.Put(u.t, any(r)); }
      if (e.kind == "width") { double lh = u.h * e.A(1, 1) * rate; if (std::fabs(lh) > 0.005 && std::fabs(lh) < 0.4) u.Width(u.h * e.A(1, 1)); }
      if (e.kind == "restart") u.Build();
      if (e.kind == "swap") { u.kind = (int)(e.I(1) & 3); u.via = (int)e.I(2); u.Build(); }
      if (e.kind == "control" && u.emb && u.steps > 0 && u.h > 0) {
        double est = u.emb->GetLocalTruncationError(), f = e.A(1, 1); auto who = Fmt("%s at %.9g", kName[u.kind], u.t); c.Check(std::isfinite(est) && est >= 0, "error-estimate", "truncation error of %s is %.9g", who.c_str(), est);
        double sc = Size(u.y) + mag + std::fabs(u.h) * rate; bool real = est > 1e-11 * sc && std::fabs(u.h * rate * f) < 0.4; double tol = real ? est * std::pow(f, 5) : 1e-6 * sc; V<N> mid0 = u.it->CalcInterpolationState(0.4), y0 = u.it->GetState(); if (!real && shape == 0) continue;
        u.emb->ControlStepWidth(tol); V<N> mid1 = u.it->CalcInterpolationState(0.4); c.Probe("step width control"); c.Check(Size(mid1 - mid0) <= 1e-12 * sc && Size(u.it->GetState() - y0) == 0, "between-steps", "the state between the steps of %s changes by %.3g when the step width is changed", who.c_str(), Size(mid1 - mid0));
        // the new step width shows in the times at which the equation is evaluated, on a probe step that is taken back
        plant.Watch(); double t = u.t; u.Step(); double h = plant.hi - t; V<N> y = u.State(); c.Check(std::isfinite(h) && h > 0 && Ok(y), "step-control", "step width of %s after the control to %.3g (error was %.3g) is %.9g", who.c_str(), tol, est, h);
        double wide = h / u.h; c.Check(!real || (wide > std::min(f, 1.0) * 0.5 && wide < std::max(f, 1.0) * 2), "step-control", "step width of %s is changed by %.4g for an error of %.3g and a tolerance of %.3g", who.c_str(), wide, est, tol); if (real) { c.Probe("controlled steps"); c.Check((f > 1.02 ? wide > 1 : true) && (f < 0.98 ? wide < 1 : true), "step-control", "step width of %s is changed by %.4g although the tolerance is %.3g times the error", who.c_str(), wide, tol / est); }
        if (shape == 1) u.Width(u.h); else if (std::fabs(h * rate) > 0.4) u.Width(u.h); else { u.h = h; u.Width(h); } u.Put(t, y0);
      }
    }
    for (int i = 0; i < 2; i++) {
      auto& u = U[i]; auto who = Fmt("%s with step %.9g at %.9g (rate %.3g)", kName[u.kind], u.h, u.t, rate); V<N> y0 = u.State(); double lh = std::fabs(u.h) * rate, sc = Size(y0) + mag + lh; c.Check(Size(y0 - u.y) == 0, "state", "state of %s is not the one that was set or reached", who.c_str());
      plant.Watch(); u.Step(); V<N> y1 = u.State(), ref = plant.Solve(u.t, y0, u.h); c.Probe("steps"); c.nontrivial = true; double eps = 1e-12 * sc + 1e-13 * std::fabs(u.t) * rate * sc, scn = shape ? 0 : sc + 2, lhe = lh * (shape ? 1 : 1.5 + Size(y0)), bound = kErr[u.kind] * std::pow(lhe, kOrder[u.kind] + 1) * scn; double err = Size(y1 - ref);
      c.Check(err <= bound + eps, "accuracy", "%s is off by %.3g, more than %.3g of a method of order %d", who.c_str(), err, bound + eps, kOrder[u.kind]); double a = std::min(u.t, u.t + u.h), b = std::max(u.t, u.t + u.h), sl = 1e-12 * (std::fabs(a) + std::fabs(b)) + 1e-15; c.Check(plant.calls > 0 && plant.lo >= a - sl && plant.hi <= b + sl, "time-of-step", "%s evaluates the equation from %.12g to %.12g", who.c_str(), plant.lo, plant.hi);
      if (u.old) { const Old<N>& o = *u.old; c.Near(o.GetIndependentVariable(), u.t + u.h, sl, "time-of-step", "time after " + who); c.Check(Size(o.GetDerivative() - plant.DerivativeFunction(u.t, y0)) <= 1e-12 * sc * rate * 3, "derivative", "derivative at the start of the step of %s", who.c_str()); c.Check(o.GetStepWidth() == u.h, "width", "step width of %s is %.9g", who.c_str(), o.GetStepWidth()); for (size_t k = 0; k < N; k++) c.Check(o[k] == y1[k], "state", "component %zu of %s", k, who.c_str()); }
      if (u.emb) {
        double est = u.emb->GetLocalTruncationError(); c.Check(std::isfinite(est) && est >= 0 && est <= 5 * kErr[u.kind] * std::pow(lhe, 5) * scn + eps, "error-estimate", "truncation error of %s is estimated as %.3g", who.c_str(), est);
      }
      if (u.emb && !shape && lhe < 0.6 && q.Chance(0.3)) {  // the estimate follows the error of the method: it shrinks with the step as a step of fourth order does
        double big = 0, small = 0, off = 0; for (int k = 0; k < 6; k++) { Unit<N> v; v.kind = u.kind; v.via = 1; v.p = &plant; v.t = u.t + 0.7 * k / rate; v.y = y0 + 0.2 * (1 + Size(y0)) * any(q); v.h = u.h; v.Build(); v.Step(); off += Size(v.State() - plant.Solve(v.t, v.y, v.h)); big += v.emb->GetLocalTruncationError(); v.h = u.h / 2; v.Build(); v.Step(); small += v.emb->GetLocalTruncationError(); }
        if (small > 3e-13 * sc) c.Probe("error estimates compared"), c.Check(big > small * 6 && big < small * 220, "error-estimate", "truncation error of %s is estimated as %.3g with half the step and %.3g with the whole step", who.c_str(), small, big);
        if (u.kind == 2) c.Check(off <= 8 * big + 6e-11 * sc, "error-estimate", "truncation error of %s is estimated as %.3g, but the steps are off by %.3g", who.c_str(), big, off);
      }
      if (u.it) for (int k = 0; k < 3; k++) {
        double sg = k == 0 ? 0 : k == 1 ? 1 : q.Uni(); V<N> m = u.it->CalcInterpolationState(sg); c.Probe("states between the steps");
        if (u.kind == 0) { c.Check(Size(m - y1) == 0, "between-steps", "%s has no interpolation but returns another state", who.c_str()); continue; }
        V<N> rm = plant.Solve(u.t, y0, sg * u.h); double em = Size(m - rm), bm = kMid[u.kind] * std::pow(lhe, 5) * scn + eps; if (k == 0) bm = eps; c.Check(em <= bm, "between-steps", "state of %s at %.4g of the step is off by %.3g, more than %.3g", who.c_str(), sg, em, bm);
      }
      if (u.it && u.kind && q.Chance(0.3)) { V<N> m0 = u.it->CalcInterpolationState(0.3); u.it->SetStepWidth(2 * u.h); V<N> m1 = u.it->CalcInterpolationState(0.3); u.it->SetStepWidth(u.h); c.Check(Size(m1 - m0) <= 1e-12 * sc, "between-steps", "the state between the steps of %s changes by %.3g with the width of the next step", who.c_str(), Size(m1 - m0)); }
      if (q.Chance(0.3)) {  // restarted from time and state before the step: same result
        Unit<N> v; v.kind = u.kind; v.via = !u.via; v.p = &plant; v.t = u.t; v.h = u.h; v.y = y0; v.Build(); v.Step(); c.Probe("restarts"); c.Check(Size(v.State() - y1) <= 1e-12 * sc, "restart", "%s gives another result after a restart: %.3g", who.c_str(), Size(v.State() - y1));
      }
      u.t += u.h; u.y = y1; covered += std::fabs(u.h); for (size_t k = 0; k < N; k++) c.Hist(y1[k]); c.State(Fmt("%s %zu lh%d back%d shape%d via%d", kName[u.kind], N, (int)std::floor(2 * std::log2(lh)), u.h < 0, shape, u.via));
      if (!(Size(y1) < 6)) { V<N> z(0.0); u.Put(u.t, z); c.Count("states brought back"); }
    }
  }
  c.sim_time_s = covered;
}
void Run(const Script& s, Ctx& c) { switch (s.L("dim")) { case 0: Drive<1>(s, c); break; case 1: Drive<3>(s, c); break; default: Drive<6>(s, c); } }
Registrar reg{[] { Property p; p.id = "I01"; p.generate = Gen; p.execute = Run; p.quick_runs = 6000; p.thorough_runs = 400000; p.states_measure = "distinct (method, dimension, step width octave, direction, kind of equation, construction)"; p.simple = {{"dim", 0}, {"via", 0}, {"t0", 0}};
  p.real = "numerical_integration (RK4, RKF, DP5, manager), OrdinaryDifferentialEquation"; p.stub = "differential equations and their owner are part of the harness"; p.level_note = "every step against an own solution in many small steps, with the order of the method as bound (rate times step width 0.005 to 0.4)"; return p; }()};
}  // namespace
