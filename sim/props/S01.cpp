// Component scheduling: clock, prescalers, power gate, object lifetimes.
#include <components/base/component.hpp>
#include "world/world.hpp"
using namespace sim;
using s2e::components::PowerPort;
namespace {
struct Call { long id; int kind; long count; };  // 0 main, 1 fast, 2 off
std::vector<Call>* g_calls; bool g_dead_called = false;
class Probe : public s2e::components::Component {
 public:
  long id; std::shared_ptr<bool> alive = std::make_shared<bool>(true);
  Probe(long i, unsigned pre, s2e::environment::ClockGenerator* g, unsigned fast) : Component(pre, g, fast), id(i) {}
  Probe(long i, unsigned pre, s2e::environment::ClockGenerator* g, PowerPort* p, unsigned fast) : Component(pre, g, p, fast), id(i) {}
  Probe(long i, const Probe& o) : Component(o), id(i) {}
  ~Probe() { *alive = false; }
  PowerPort* Port() { return power_port_; }
  void MainRoutine(const int n) override { g_calls->push_back({id, 0, n}); }
  void FastUpdate() override { g_calls->push_back({id, 1, -1}); }
  void PowerOffRoutine() override { g_calls->push_back({id, 2, -1}); }
};
const int kPorts = 4;
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; long n = r.Int(20, thorough ? 600 : 250); s.p["n"] = n; s.p["clocked"] = r.Chance(0.3); s.p["period"] = r.Int(1, 5); s.p["ports"] = r.Int(1, kPorts);
  long m = r.Int(5, 60);
  for (long i = 0; i < m; i++) {
    long t = i < 3 ? 0 : r.Int(0, n); int k = i < 3 ? 0 : r.Int(0, 9);
    if (k <= 2) s.Add(t, "create", {(double)r.Pick<int>({0, 1, 1, 2, 3, 5, 7, 10}), (double)r.Pick<int>({0, 1, 2, 3, 4}), (double)r.Chance(0.5), (double)r.Int(-1, s.L("ports") - 1)});
    else if (k == 3) s.Add(t, "copy", {(double)r.Int(0, 50)});
    else if (k == 4) s.Add(t, "destroy", {(double)r.Int(0, 50)});
    else if (k <= 7) s.Add(t, "voltage", {(double)r.Int(0, 50), r.Pick<double>({0, 0, 3.0, 3.29, 3.31, 5, 12})});
    else if (k == 8) s.Add(t, "load", {(double)r.Int(0, 50), r.Pick<double>({0, 1, 10, 45, 200}), r.Pick<double>({3.31, 5, 12})});
    else s.Add(t, "fast", {(double)r.Int(0, 50), (double)r.Chance(0.5)});
  }
  s.SortEvents(); return s;
}
struct Model { long id; long pre, fast; bool need; int port; bool* unused; };
void Run(const Script& s, Ctx& c) {
  std::vector<Call> calls, want; g_calls = &calls;
  auto* gen = new s2e::environment::ClockGenerator;
  struct Port { PowerPort* p; double v = 0, load = 0; bool on = false; };
  std::vector<Port> ports; int np = s.L("ports");
  for (int i = 0; i < np; i++) ports.push_back({new PowerPort(i, 8.0, 3.3, 0.0)});
  std::vector<std::pair<Probe*, Model>> live; long next = 0, ticks = 0; size_t k = 0;
  double step = 0.1; s2e::environment::SimulationTime time(1e9, step, step, step, step, step, step, step, step * (s.L("period") - 0.5 > step ? s.L("period") - 0.0 : 1), step, "2020/01/01 00:00:00.0", 0);
  for (long i = 0; i <= s.L("n"); i++) {
    for (; k < s.ev.size() && s.ev[k].t <= i; k++) {
      const Event& e = s.ev[k];
      if (e.kind == "create") {
        int port = e.I(3); if (port >= np) port = -1; Probe* p = port < 0 ? new Probe(next, e.I(0), gen, e.I(1)) : new Probe(next, e.I(0), gen, ports[port].p, e.I(1));
        Model m{next, std::max(1l, e.I(0)), std::max(1l, e.I(1)), e.I(2) != 0, port};
        if (port < 0) { ports.push_back({p->Port()}); ports.back().on = true; m.port = ports.size() - 1; }
        p->SetNeedsFastUpdate(m.need); live.push_back({p, m}); next++; c.Count("component created");
      } else if (live.empty()) continue;
      else if (e.kind == "copy") { auto& o = live[e.I(0) % live.size()]; Probe* p = new Probe(next, *o.first); Model m = o.second; m.id = next++; live.push_back({p, m}); c.Count("component copied"); }
      else if (e.kind == "destroy") { size_t j = e.I(0) % live.size(); delete live[j].first; live.erase(live.begin() + j); c.Count("component destroyed"); }
      else if (e.kind == "fast") { auto& o = live[e.I(0) % live.size()]; o.first->SetNeedsFastUpdate(e.I(1)); o.second.need = e.I(1); }
      else if (e.kind == "voltage" || e.kind == "load") {
        Port& p = ports[e.I(0) % ports.size()]; 
        if (e.kind == "load") { p.load = e.A(1); p.p->SetAssumedPowerConsumption_W(p.load); p.v = e.A(2); } else p.v = e.A(1);
        bool own = (e.I(0) % ports.size()) >= (size_t)np; double limit = own ? 10.0 : 8.0;
        bool on = p.p->SetVoltage_V(p.v); p.on = p.v >= 3.3; if (p.on && p.load / p.v >= limit) { p.on = false; p.v = 0; c.Count("over-current trip"); }
        c.Check(on == p.on && p.p->GetIsOn() == p.on, "power-state", "port with %.3g V and %.3g W is %s", e.A(1), p.load, on ? "on" : "off"); c.Count(p.on ? "supply on" : "supply off");
      }
    }
    bool due = true;
    if (s.P("clocked")) { time.UpdateTime(); due = time.GetCompoUpdateFlag(); gen->UpdateComponents(&time); c.sim_time_s += step; } else gen->TickToComponents();
    want.clear();
    if (due) {
      for (auto& l : live) {
        const Model& m = l.second; bool on = ports[m.port].on;
        if (ticks % m.pre == 0) want.push_back(on ? Call{m.id, 0, ticks} : Call{m.id, 2, -1});
        if (m.need && ticks % m.fast == 0) want.push_back(on ? Call{m.id, 1, -1} : Call{m.id, 2, -1});
      }
      ticks++;
    }
    static const char* kn[] = {"main routine", "fast update", "power-off routine"};
    for (size_t j = 0; j < std::max(want.size(), calls.size()); j++) {
      if (j >= calls.size()) c.Fail("missing-call", "tick %ld: %s of component %ld was not called", ticks - 1, kn[want[j].kind], want[j].id);
      if (j >= want.size()) c.Fail("extra-call", "tick %ld: unexpected call of %s of component %ld", ticks - 1, kn[calls[j].kind], calls[j].id);
      bool same = calls[j].id == want[j].id && calls[j].kind == want[j].kind && calls[j].count == want[j].count;
      c.Check(same, calls[j].count != want[j].count && calls[j].kind == 0 && want[j].kind == 0 ? "tick-count" : "wrong-call", "tick %ld, call %zu: got %s of component %ld (count %ld), expected %s of component %ld (count %ld)", ticks - 1, j, kn[calls[j].kind], calls[j].id,
              calls[j].count, kn[want[j].kind], want[j].id, want[j].count);
      c.Hist((uint64_t)(calls[j].id * 3 + calls[j].kind)); c.State((uint64_t)calls[j].kind + 4 * (uint64_t)std::min<size_t>(j, 60) + 1000 * (uint64_t)live.size());
    }
    calls.clear();
  }
  c.nontrivial = s.ev.size() > 3; c.Count("ticks", ticks);
}
Registrar reg{[] { Property p; p.id = "S01"; p.generate = Gen; p.execute = Run; p.quick_runs = 8000; p.thorough_runs = 500000; p.simple = {{"clocked", 0}};
  p.states_measure = "distinct (number of living components, position, kind of call) situations"; p.real = "ClockGenerator, Component, PowerPort, SimulationTime"; p.stub = "none of the code involved";
  p.level_note = "components are created and destroyed between ticks, never from inside a tick"; return p; }()};
}  // namespace
