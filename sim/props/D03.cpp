// Other spacecraft are added, removed, reordered, reconfigured or destroyed in the middle of the run: the kept ones must not notice.
#include <math_physics/randomization/global_randomization.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include "world/child.hpp"
#include "world/mission.hpp"
using namespace sim;
namespace {
enum { kReplace, kFewer, kPermute, kDestroy, kLater, kModes };
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; int mode = (int)r.Int(0, kModes - 1); s.p["mode"] = mode;
  MissionOpt o; o.max_steps = thorough ? 80 : 25; o.noise = mode == kLater ? 1 : mode == kDestroy ? -1 : 0; GenTiming(r, s, o); long n = r.Int(2, 4); s.p["n"] = n;
  for (int d = 0; d < n; d++) GenCraft(r, s, d, o);
  GenEvents(r, s, o);
  s.p["kept"] = (double)(mode == kLater ? (1 << r.Int(1, n - 1)) - 1 : r.Int(1, (1 << n) - 2));
  // alternative definitions of the others, defs n .. 2n-1
  for (int d = 0; d < n; d++) GenCraft(r, s, (int)n + d, o);
  s.p["perm"] = (double)r.Int(1, 1000000000); s.p["at"] = (double)r.Int(1, s.L("steps")); s.p["drop"] = (double)r.Int(1, 15); s.p["extra"] = (double)r.Int(0, 2);
  if (r.Chance(0.5)) { long k = r.Int(1, 6); for (long i = 0; i < k; i++) s.Add(r.Int(1, s.L("steps")), r.Chance(0.5) ? "power" : "rw", {(double)(n + r.Int(0, n - 1)), (double)r.Int(0, 7), 0}); s.SortEvents(); }
  return s;
}
struct Out { std::map<int, std::vector<double>> rows; std::map<int, std::string> logs; std::map<std::pair<int, int>, std::vector<double>> rel; std::vector<std::string> names; };
// destroyed: spacecraft position -> step before which it disappears
Out Fly(const Script& s, const std::vector<int>& defs, long kept, const std::map<int, long>& destroyed, const char* dir, bool& ok, std::string& why) {
  auto r = InChild([&] {
    mkdir(dir, 0755); if (chdir(dir)) _exit(94);
    MissionSettings(s, defs).Write(); WriteGravityFiles(); HostNoise{0}.Apply();
    s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); mkdir("logs", 0755);
    Mission m(s, defs); std::map<int, std::unique_ptr<s2e::logger::Logger>> own; std::map<int, std::vector<double>> rows; std::map<std::pair<int, int>, std::vector<double>> rel; std::vector<std::string> names;
    auto is_kept = [&](int def) { return def < s.L("n") && ((kept >> def) & 1); };
    m.ready = [&](Case& c) {
      if (!destroyed.empty()) c.Log().ClearLogList();
      for (size_t i = 0; i < c.craft.size(); i++) if (is_kept(defs[i])) {
        auto& l = own[defs[i]]; l.reset(new s2e::logger::Logger("craft" + std::to_string(defs[i]) + ".csv", "logs/", Settings::BaseFile(), false, true));
        c.craft[i]->LogSetup(*l); l->WriteHeaders();
      }
    };
    m.before = [&](Case& c, long step) { for (auto& d : destroyed) if (d.second == step) { m.kits[d.first] = nullptr; c.craft[d.first].reset(); } };
    m.after = [&](Case& c, long) {
      Row w; bool first = names.empty(); if (first) w.names = &names; size_t last = 0;
      for (size_t i = 0; i < c.craft.size(); i++) if (is_kept(defs[i])) {
        int d = defs[i]; size_t b = w.v.size();
        SampleTruth(*c.craft[i], w); SampleField(*c.craft[i], w); SampleParts(*m.kits[i], w);
        for (auto& g : c.ground) w.D("visible", g->IsVisible(i));
        w.D("time", c.Time().GetElapsedTime_s()); rows[d].insert(rows[d].end(), w.v.begin() + b, w.v.end());
        for (; first && last < names.size(); last++) names[last] = Fmt("%d:", d) + names[last];
        own[d]->WriteValues();
        for (size_t j = 0; j < c.craft.size(); j++) if (is_kept(defs[j]) && j != i) {
          auto& R = rel[{d, defs[j]}]; V3 p = c.relative.GetRelativePosition_i_m(i, j), v = c.relative.GetRelativeVelocity_i_m_s(i, j), a = c.relative.GetRelativePosition_rtn_m(i, j), b2 = c.relative.GetRelativeVelocity_rtn_m_s(i, j); auto q = c.relative.GetRelativeAttitudeQuaternion(i, j);
          for (int k = 0; k < 3; k++) for (double x : {p[k], v[k], a[k], b2[k], q[k]}) R.push_back(x); R.push_back(q[3]); R.push_back(c.relative.GetRelativeDistance_m(i, j));
        }
      }
    };
    { Case::Hooks h = m.Hooks(); auto before = h.before; h.before = [&, before](Case& c, long step) { std::vector<Kit*> all = m.kits; m.kits.erase(std::remove(m.kits.begin(), m.kits.end(), nullptr), m.kits.end()); std::vector<Kit*> live = m.kits; for (auto& e : s.ev) if (e.t == step) for (auto* k : live) if (k->def == e.I(0)) k->Command(e); m.kits = all; if (m.before) m.before(c, step); };
      Case c(h, true); c.Initialize(); c.Main(); own.clear(); }
    std::string o; PutBlob(o, std::to_string(rows.size()));
    for (auto& x : rows) { PutBlob(o, std::to_string(x.first)); PutBlob(o, Bytes(x.second)); Real real; PutBlob(o, FindLog("logs", Fmt("_craft%d.csv", x.first))); }
    PutBlob(o, std::to_string(rel.size())); for (auto& x : rel) { PutBlob(o, std::to_string(x.first.first)); PutBlob(o, std::to_string(x.first.second)); PutBlob(o, Bytes(x.second)); }
    for (auto& n : names) PutBlob(o, n);
    return o;
  });
  Out o; ok = r.ok; why = r.why; if (!ok) return o; size_t p = 0; long k = atol(GetBlob(r.out, p).c_str());
  while (k-- > 0) { int d = atoi(GetBlob(r.out, p).c_str()); o.rows[d] = Doubles(GetBlob(r.out, p)); o.logs[d] = GetBlob(r.out, p); }
  k = atol(GetBlob(r.out, p).c_str()); while (k-- > 0) { int a = atoi(GetBlob(r.out, p).c_str()), b = atoi(GetBlob(r.out, p).c_str()); o.rel[{a, b}] = Doubles(GetBlob(r.out, p)); }
  while (p < r.out.size()) o.names.push_back(GetBlob(r.out, p));
  return o;
}
void Run(const Script& s, Ctx& c) {
  long n = s.L("n"), kept = s.L("kept"); int mode = (int)s.L("mode"); Rng r((uint64_t)s.P("perm", 1)); std::vector<int> A = AllDefs(s), B; std::map<int, long> destroyed;
  auto is_kept = [&](int d) { return ((kept >> d) & 1) != 0; };
  if (mode == kReplace || mode == kPermute) for (int d : A) B.push_back(is_kept(d) ? d : d + (int)n);
  if (mode == kFewer) for (int d : A) { if (is_kept(d)) B.push_back(d); else if ((s.L("drop") >> d) & 1) continue; else B.push_back(d + (int)n); }
  if (mode == kPermute) { for (int e = 0; e < s.L("extra"); e++) { int d = (int)r.Int(0, n - 1); if (!is_kept(d)) B.push_back(d); } for (size_t i = B.size(); i > 1; i--) std::swap(B[i - 1], B[r.Int(0, (long)i - 1)]); }
  if (mode == kDestroy) { B = A; for (int d : A) if (!is_kept(d)) destroyed[d] = r.Int(1, s.L("steps")); }
  if (mode == kLater) { for (int d : A) if (is_kept(d)) B.push_back(d); for (int e = 0; e < s.L("extra"); e++) B.push_back((int)n + (int)r.Int(0, n - 1)); }
  bool ok; std::string why; Out a = Fly(s, A, kept, {}, "a", ok, why); if (!ok) c.Fail("aborted", "the simulation with the original set of spacecraft %s", why.c_str());
  Out b = Fly(s, B, kept, destroyed, "b", ok, why);
  if (!ok) c.Fail(mode == kDestroy ? "aborted-destroyed" : "aborted-changed", "the simulation with the changed set of spacecraft %s", why.c_str());
  static const char* W[] = {"after the others were reconfigured", "with other spacecraft left out", "after the spacecraft were reordered", "after the others were destroyed during the run", "with other spacecraft created after it"};
  for (auto& x : a.rows) {
    int d = x.first; auto &u = x.second, &v = b.rows[d]; c.Check(u.size() == v.size() && !u.empty(), "shape", "spacecraft %d: %zu and %zu recorded values", d, u.size(), v.size());
    std::vector<std::string> nm; std::string pre = Fmt("%d:", d); for (auto& q : a.names) if (q.compare(0, pre.size(), pre) == 0) nm.push_back(q);
    for (size_t i = 0; i < u.size(); i++) if (memcmp(&u[i], &v[i], 8) && !(std::isnan(u[i]) && std::isnan(v[i])))
      c.Fail("differs", "spacecraft %d %s: step %zu, %s: %.17g became %.17g", d, W[mode], i / std::max<size_t>(nm.size(), 1) + 1, nm.empty() ? "?" : nm[i % nm.size()].c_str(), u[i], v[i]);
    c.Probe("values compared", (double)u.size());
    auto &la = a.logs[d], &lb = b.logs[d]; size_t k = 0; if (mode == kPermute || mode == kFewer) { size_t p = la.find('\n'), q = lb.find('\n'); if (p != std::string::npos && q != std::string::npos) { la = la.substr(p); lb = lb.substr(q); } }
    while (k < la.size() && k < lb.size() && la[k] == lb[k]) k++;
    c.Check(la == lb, "log-differs", "spacecraft %d %s: its log differs at byte %zu (%s): \"%s\" / \"%s\"", d, W[mode], k, LogPlace(la, k).c_str(), la.substr(k, 24).c_str(), lb.substr(k, 24).c_str());
    for (size_t i = 0; i < u.size(); i += 5) c.Hist(u[i]);
  }
  for (auto& x : a.rel) { auto& v = b.rel[x.first]; c.Check(x.second.size() == v.size() && !memcmp(x.second.data(), v.data(), 8 * v.size()), "relative-differs", "the relative information of spacecraft %d and %d changed %s", x.first.first, x.first.second, W[mode]); c.Probe("relative information compared"); }
  c.Count(W[mode]); c.sim_time_s += 2 * s.P("dt") * s.P("steps"); uint64_t h = 0; for (int d : B) h = h * 9 + d; c.State(h * 16 + kept + 1000000 * mode); c.nontrivial = !a.rows.empty();
}
Registrar reg{[] { Property p; p.id = "D03"; p.generate = Gen; p.execute = Run; p.quick_runs = 500; p.thorough_runs = 15000;
  p.states_measure = "distinct pairs of kept set and changed set of spacecraft"; p.real = "SimulationCase, Spacecraft, environment, disturbances, dynamics, components, RelativeInformation, Logger";
  p.stub = "ephemeris (SPICE) and NRLMSISE libraries"; p.level_note = "noise is on only where no earlier constructed spacecraft changes, because noise seeds are handed out in construction order"; return p; }()};
}  // namespace
