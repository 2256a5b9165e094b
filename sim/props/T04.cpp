// Time representations in a small distributed mission: a spacecraft clock (epoch seconds), a navigation receiver (GPS week and seconds) and a ground clock
// (calendar date) keep time through ticks, steps and corrections and exchange time stamps over links that delay, duplicate, reorder and lose them.
// Oracle: one integer count of sub-seconds since 1970 and the proleptic Gregorian calendar computed from it.
#include <cmath>
#include <math_physics/time_system/date_time_format.hpp>
#include <math_physics/time_system/epoch_time.hpp>
#include <math_physics/time_system/gps_time.hpp>
#include <new>
#include <string.h>
#include "core/seams.hpp"
#include "core/sim.hpp"
using namespace sim;
using namespace s2e::time_system;
namespace {
const int64_t kGps0 = 315964800, kWeek = 604800, kEnd = 4102444800;  // 1980/1/6, 2100/1/1
struct Cal { long y; int m, d, h, mi, s; };
int64_t Days(long y, int m, int d) { long yy = m <= 2 ? y - 1 : y, era = yy / 400, yoe = yy - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
Cal Civil(int64_t t) {
  int64_t z = t / 86400 + 719468, era = z / 146097; long doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  Cal c; c.d = (int)(doy - (153 * mp + 2) / 5 + 1); c.m = (int)(mp < 10 ? mp + 3 : mp - 9); c.y = yoe + era * 400 + (c.m <= 2); long r = t % 86400; c.h = r / 3600; c.mi = r % 3600 / 60; c.s = r % 60; return c;
}
int Dim(long y, int m) { return (int)(Days(m == 12 ? y + 1 : y, m % 12 + 1, 1) - Days(y, m, 1)); }
// an instant of the oracle: u units after 1970, U units per second
struct Units { int64_t U; bool exact; };
double Frac(int64_t n, const Units& q) { return (double)(n % q.U) / (double)q.U; }
struct Judge {
  Ctx& c; Units q; double tol;
  void Epoch(const EpochTime& e, int64_t n, const std::string& w) {
    c.Probe("conversions"); double f = e.GetFraction_s(); c.Check(f >= 0 && f < 1, "fraction", "%s: fraction of a second %.17g", w.c_str(), f); double d = (double)((int64_t)e.GetTime_s() - n / q.U) + (f - Frac(n, q)); c.Near(d, 0, tol, "epoch", w + Fmt(" (%ld + %.12g s, expected %ld + %.12g s)", (long)e.GetTime_s(), f, (long)(n / q.U), Frac(n, q)));
    c.Near(e.GetTimeWithFraction_s(), (double)n / q.U, 2e-6, "epoch", w + ": time with fraction"); c.Hist((uint64_t)e.GetTime_s()); c.Hist(f);
  }
  void Date(const DateTime& d, int64_t n, const std::string& w) {
    c.Probe("conversions"); long y = (long)d.GetYear(); int m = (int)d.GetMonth(), day = (int)d.GetDay(), h = (int)d.GetHour(), mi = (int)d.GetMinute(); double s = d.GetSecond(); std::string t = Fmt("%s: %ld/%d/%d %d:%d:%.12g", w.c_str(), y, m, day, h, mi, s);
    c.Check(m >= 1 && m <= 12 && day >= 1 && day <= Dim(y, m) && h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s < 60, "calendar-range", "%s is no date and time", t.c_str());
    double x = (double)(Days(y, m, day) * 86400 + h * 3600 + mi * 60 - n / q.U) + (s - Frac(n, q)); Cal k = Civil(n / q.U); c.Near(x, 0, tol + 1e-13, "calendar", t + Fmt(", expected %ld/%d/%d %d:%d:%.12g", k.y, k.m, k.d, k.h, k.mi, k.s + Frac(n, q))); c.Hist(s);
  }
  void Gps(const GpsTime& g, int64_t n, const std::string& w) {
    c.Probe("conversions"); int64_t r = n - kGps0 * q.U; double sow = g.GetElapsedTimeFromWeek_s(); c.Check(sow >= 0 && sow <= kWeek, "week-range", "%s: %.12g s into the week", w.c_str(), sow); double d = (double)(((int64_t)g.GetWeek() - r / (kWeek * q.U)) * kWeek) + (sow - (double)(r % (kWeek * q.U)) / q.U); c.Near(d, 0, tol + 2e-10, "gps", w + Fmt(": week %zu + %.12g s, expected %ld + %.12g s", g.GetWeek(), sow, (long)(r / (kWeek * q.U)), (double)(r % (kWeek * q.U)) / q.U));
    Judge l{c, q, tol + 2e-10}; l.Epoch(g.GetEpochTime(), n, w + ", epoch of GPS time"); l.Date(g.GetDateTime(), n, w + ", date of GPS time"); l.Date(g.GetDateTimeAsUtc(), n - 18 * q.U, w + ", UTC of GPS time");
  }
  void Order(const EpochTime& a, int64_t na, const EpochTime& b, int64_t nb, const std::string& w) {
    c.Probe("conversions"); bool lt = a < b, gt = a > b, eq = a == b; std::string t = Fmt("%s (%.9f s, %.9f s)", w.c_str(), (double)na / q.U, (double)nb / q.U); c.Check((int)lt + gt + eq == 1 && (a <= b) == !gt && (a >= b) == !lt && (a != b) == !eq && (b > a) == lt && (b < a) == gt && (b == a) == eq, "order-laws", "%s: comparisons contradict each other", t.c_str());
    if (!q.exact && na == nb) return; c.Check(lt == (na < nb) && gt == (na > nb) && eq == (na == nb), "order", "%s: wrong order", t.c_str());
    if (na >= nb) { Epoch(a - b, na - nb, t + ": difference"); if (na - nb < kEnd * q.U) Epoch(b + (a - b), na, t + ": difference added again"); }
  }
};
int64_t Draw(Rng& r, int64_t U) {  // instants near the corners of the calendars
  int64_t s;
  switch (r.Int(0, 9)) {
    case 0: s = kGps0 + r.Int(0, 6300) * kWeek + r.Int(-3, 3); break;                                                            // week rollover
    case 1: { long y = 1972 + 4 * r.Int(0, 31); s = Days(y, 2, (int)r.Int(28, 29)) * 86400 + r.Int(0, 2 * 86400); break; }             // leap day
    case 2: { long y = r.Int(1981, 2099); s = Days(y, 12, 31) * 86400 + 86400 + r.Int(-2, 2); break; }                                // new year
    case 3: { long y = r.Int(1981, 2099); int m = (int)r.Int(1, 12); s = Days(y, m, Dim(y, m)) * 86400 + 86400 + r.Int(-2, 2); break; }    // month ends
    case 4: s = r.Int(4000, 47000) * 86400 + r.Int(-2, 2); break;                                                               // midnight
    case 5: s = r.Int(10000, 60000) * 60000 + 60 * r.Int(0, 1000) - r.Int(0, 1); break;                                              // full minutes
    default: s = kGps0 + r.Int(100, kEnd - kGps0 - 400 * 86400); }
  s = std::max<int64_t>(kGps0 + 100, std::min<int64_t>(s, kEnd - 86400)); return s * U + (r.Chance(0.3) ? 0 : r.Chance(0.3) ? U - 1 : r.Chance(0.2) ? U / 2 : r.Int(0, U - 1));
}
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; int64_t units[] = {1 << 20, 2, 16, 10, 100, 1000, 1000000}; s.p["unit"] = (double)units[r.Int(0, 6)]; s.p["start"] = (double)Draw(r, 1); s.p["sub"] = (double)r.Int(0, 1000000); s.p["geo"] = (double)r.Int(1, 1000000000); long n = r.Int(5, thorough ? 400 : 120);
  for (long i = 0; i < n; i++) { double w = (double)r.Int(1, 1000000000);
    switch (r.Int(0, 9)) {
      case 0: case 1: s.Add(i, "tick", {r.Chance(0.5) ? 1 : (double)r.Int(1, 50), w}); break;
      case 2: s.Add(i, "step", {w}); break;
      case 3: s.Add(i, "back", {w}); break;
      case 4: s.Add(i, "set", {w}); break;
      case 8: s.Add(i, r.Chance(0.3) ? "broken" : "compare", {w}); break;
      case 9: s.Add(i, "compare", {w}); break;
      default: s.Add(i, "send", {(double)r.Int(0, 2), (double)r.Int(0, 2), (double)r.Int(0, 3), (double)r.Int(0, 6), r.Chance(0.2) ? (double)r.Int(1, 6) : 0, r.Chance(0.1) ? 1.0 : 0.0}); } }
  return s;
}
void Run(const Script& s, Ctx& c) {
  Units q; q.U = std::max<int64_t>(2, s.L("unit", 16)); q.exact = (q.U & (q.U - 1)) == 0; Judge j{c, q, q.exact ? 1e-12 : 1e-8}; Rng g((uint64_t)s.P("geo", 1));
  // three clocks; the oracle holds one integer per clock
  int64_t n[3]; n[0] = (int64_t)s.P("start", 1e9) * q.U + s.L("sub") % q.U; n[0] = std::max(n[0], (kGps0 + 100) * q.U); n[1] = n[2] = n[0];
  EpochTime craft((uint64_t)(n[0] / q.U), Frac(n[0], q)); GpsTime gps(craft); DateTime ground(craft); auto set = [&](int k, int64_t v) {
    n[k] = v; EpochTime e((uint64_t)(v / q.U), Frac(v, q)); if (k == 0) craft = e; if (k == 1) gps = GpsTime(e); if (k == 2) ground = DateTime(e); };
  struct Stamp { long due; int to, form; int64_t n; EpochTime e; GpsTime g; DateTime d; std::string text; }; std::vector<Stamp> wire; std::vector<std::pair<EpochTime, int64_t>> seen; double covered = 0;
  auto check = [&](const char* w) { j.Epoch(craft, n[0], Fmt("spacecraft clock after %s", w)); j.Gps(gps, n[1], Fmt("receiver clock after %s", w)); j.Date(ground, n[2], Fmt("ground clock after %s", w)); };
  auto advance = [&](int k, int64_t d) {  // by the representation's own means
    if (n[k] + d > (kEnd - 86400) * q.U || n[k] + d < (kGps0 + 50) * q.U) return; int64_t a = d < 0 ? -d : d; EpochTime de((uint64_t)(a / q.U), Frac(a, q)); n[k] += d; if (d > 0 && a / q.U < 3600) covered += (double)a / q.U; auto move = [&](const EpochTime& e) { return d < 0 ? e - de : e + de; };
    if (k == 0) craft = move(craft); if (k == 1) gps = GpsTime(move(gps.GetEpochTime())); if (k == 2) ground = DateTime(move(EpochTime(ground))); };
  auto deliver = [&](const Stamp& m) {
    const char* names[] = {"spacecraft", "receiver", "ground"}; std::string w = Fmt("stamp in form %d at the %s", m.form, names[m.to]); EpochTime e = m.form == 0 ? m.e : m.form == 1 ? m.g.GetEpochTime() : EpochTime(m.d); Judge l{c, q, j.tol + 2e-10}; l.Epoch(e, m.n, w); l.Date(DateTime(e), m.n, w); l.Gps(m.form == 1 ? GpsTime(m.g.GetWeek(), m.g.GetElapsedTimeFromWeek_s()) : m.form == 2 ? GpsTime(m.d) : GpsTime(e), m.n, w);
    if (m.form == 3) { DateTime d(m.text); double near = std::fabs((double)(Days((long)d.GetYear(), (int)d.GetMonth(), (int)d.GetDay()) * 86400 + (long)d.GetHour() * 3600 + (long)d.GetMinute() * 60 - m.n / q.U) + (d.GetSecond() - Frac(m.n, q))); c.Check(near < 1e-4, "text", "the text %s is off by %g s", m.text.c_str(), near); c.Probe("texts"); }
    EpochTime own = m.to == 0 ? craft : m.to == 1 ? gps.GetEpochTime() : EpochTime(ground); if (q.exact && m.to != 1 && m.form != 1) { j.Order(own, n[m.to], e, m.n, w + " against its own clock"); c.Probe(n[m.to] < m.n ? "stamps from the future" : "stamps from the past"); } c.Probe("stamps"); seen.push_back({m.e, m.n}); if (seen.size() > 20) seen.erase(seen.begin()); };
  check("start"); long now = 0;
  auto flush = [&](long until) { for (;;) { size_t b = wire.size(); for (size_t i = 0; i < wire.size(); i++) if (wire[i].due <= until && (b == wire.size() || wire[i].due < wire[b].due)) b = i; if (b == wire.size()) return; Stamp m = wire[b]; wire.erase(wire.begin() + (long)b); deliver(m); } };
  for (auto& e : s.ev) {
    now = e.t; flush(now); int k = (int)(g.U64() % 3);
    if (e.kind == "tick") { Rng r((uint64_t)e.I(1)); int64_t d = r.Chance(0.5) ? r.Int(1, q.U - 1) : r.Int(1, 3 * q.U); for (long i = 0; i < std::min(1000L, e.I(0)); i++) { for (int x = 0; x < 3; x++) advance(x, d); check("a tick"); } c.Count("ticks", e.A(0)); }
    else if (e.kind == "step") { Rng r((uint64_t)e.I(0)); int64_t target = Draw(r, q.U); advance(k, target - n[k]); c.Count("clock stepped"); check("a step"); }
    else if (e.kind == "back") { Rng r((uint64_t)e.I(0)); advance(k, -(int64_t)(r.Chance(0.5) ? r.Int(1, q.U) : (long)(r.LogUni(1, 1e7) * q.U))); c.Count("clock set back"); check("a correction"); }
    else if (e.kind == "set") { Rng r((uint64_t)e.I(0)); set(k, Draw(r, q.U)); c.Count("clock restarted"); check("a restart"); }
    else if (e.kind == "compare") { Rng r((uint64_t)e.I(0)); EpochTime o = k == 1 || k == 0 ? craft : EpochTime(ground); int64_t no = k == 1 || k == 0 ? n[0] : n[2]; int64_t m = r.Chance(0.3) ? no : r.Chance(0.4) ? no + r.Sign() * r.Int(1, q.U) : Draw(r, q.U); if (m > 0) j.Order(o, no, EpochTime((uint64_t)(m / q.U), Frac(m, q)), m, "comparison"); for (auto& p : seen) j.Order(p.first, p.second, o, no, "comparison with an earlier stamp"); c.Probe("comparisons"); }
    else if (e.kind == "broken") {  // damaged texts and dates: the result must not depend on what was in memory
      Rng r((uint64_t)e.I(0)); std::string t = ground.GetAsString(); switch (r.Int(0, 3)) { case 0: t = t.substr(0, r.Int(0, (long)t.size())); break; case 1: t[(size_t)r.Int(0, (long)t.size() - 1)] = "x/: -9"[r.Int(0, 5)]; break; case 2: t = ""; break; default: t = Fmt("%ld/%ld/%ld %ld:%ld:%g", r.Int(0, 3000), r.Int(0, 20), r.Int(0, 40), r.Int(0, 30), r.Int(0, 70), r.Uni(0, 80)); }
      std::string a[2]; for (int x = 0; x < 2; x++) { alignas(16) unsigned char md[sizeof(DateTime)], me[sizeof(EpochTime)]; memset(md, x ? 0x5a : 0, sizeof md); memset(me, x ? 0x5a : 0, sizeof me); DateTime* d = new (md) DateTime(t); EpochTime* p = new (me) EpochTime(*d); a[x] = Fmt("%zu/%zu/%zu %zu:%zu:%.17g = %zu + %.17g", d->GetYear(), d->GetMonth(), d->GetDay(), d->GetHour(), d->GetMinute(), d->GetSecond(), (size_t)p->GetTime_s(), p->GetFraction_s()); }
      c.Check(a[0] == a[1], "garbage", "\"%s\" is read as %s or as %s, depending on the contents of the memory", t.c_str(), a[0].c_str(), a[1].c_str()); c.Count("damaged date texts"); }
    else if (e.kind == "send") {
      int from = (int)(e.I(0) % 3), to = (int)(e.I(1) % 3), form = (int)(e.I(2) % 4); if (e.A(5) > 0) { c.Count("stamps lost"); continue; } EpochTime x = from == 0 ? craft : from == 1 ? gps.GetEpochTime() : EpochTime(ground); Stamp m{now + e.I(3), to, form, n[from], x, from == 1 ? gps : GpsTime(x), from == 2 ? ground : DateTime(x), ""}; m.text = m.d.GetAsString(); wire.push_back(m); if (e.I(3)) c.Count("stamps delayed"); if (e.A(4) > 0) { m.due = now + e.I(4); wire.push_back(m); c.Count("stamps duplicated"); } }
    Cal k0 = Civil(n[0] / q.U); c.State(Fmt("%s y%ld m%d %s%s u%ld", e.kind.c_str(), k0.y % 4, k0.m, k0.d == 1 ? "first" : k0.d == Dim(k0.y, k0.m) ? "last" : "", (n[0] / q.U - kGps0) % kWeek < 10 ? " week" : "", (long)q.U));
  }
  flush(now + 100); c.nontrivial = c.evaluated > 3; c.sim_time_s = covered;
}
Registrar reg{[] { Property p; p.id = "T04"; p.generate = Gen; p.execute = Run; p.quick_runs = 20000; p.thorough_runs = 2000000; p.states_measure = "distinct (event, year in the leap cycle, month, first or last day, week rollover, time resolution)"; p.simple = {{"unit", 2}, {"sub", 0}};
  p.real = "time_system: DateTime, EpochTime, GpsTime"; p.stub = "three clocks and the links between them are part of the harness"; p.level_note = "1980 to 2099; exact for binary fractions, 1e-8 s otherwise; texts to the six digits they show, without the rounding to 60 that an existing test pins"; return p; }()};
}  // namespace
