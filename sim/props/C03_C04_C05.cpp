// I2C registers, GPIO lines, SLIP framing.
#include <components/base/gpio_connection_with_obc.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <utilities/endian.hpp>
#include <utilities/slip.hpp>
#include "world/world.hpp"
using namespace sim;
using namespace s2e::components;
using Bytes = std::vector<unsigned char>;
int OBC_C2A_I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length);
int OBC_C2A_I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length);
int OBC_C2A_I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length);
int OBC_C2A_GpioWrite(int port_id, const bool is_high);
bool OBC_C2A_GpioRead(int port_id);
namespace {
unsigned char Pat(long n) { return (unsigned char)(((uint64_t)n * 2654435761u) >> 13); }
std::unique_ptr<OnBoardComputer> Computer(bool c2a, s2e::environment::ClockGenerator* k) { if (c2a) return std::make_unique<ObcWithC2a>(k); return std::make_unique<OnBoardComputer>(k); }

// ---------------------------------------------------------------- I2C
class Target : public I2cTargetCommunicationWithObc {
 public:
  Target(unsigned p, unsigned char a, OnBoardComputer* o) : I2cTargetCommunicationWithObc(p, a, o), port(p), addr(a) {}
  Target(Target&& o) noexcept : I2cTargetCommunicationWithObc(std::move(o)), port(o.port), addr(o.addr) {}
  void RdReg(unsigned char r, unsigned char* d, unsigned char n) { ReadRegister(r, d, n); }
  void WrReg(unsigned char r, const unsigned char* d, unsigned char n) { WriteRegister(r, d, n); }
  void RdCmd(unsigned char* d, unsigned char n) { ReadCommand(d, n); }
  int Hils() { return ReceiveCommand() + SendTelemetry(3) + GetStoredFrameCounter() + StoreTelemetry(2, 3); }
  unsigned port; unsigned char addr;
};
const int kRegs = 255;
struct Bus { bool open = false; int ptr = 0; std::map<int, Bytes> reg, cmd; };
Script Gen3(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["c2a"] = r.Chance(0.75); long n = r.Int(20, thorough ? 600 : 250); bool wide = r.Chance(0.4);
  auto len = [&]() -> double { return wide && r.Chance(0.3) ? r.Int(0, 255) : r.Int(0, 6); };
  auto adr = [&]() -> double { return wide || r.Chance(0.2) ? r.Pick<double>({0, 1, 100, 250, 252, 253, 254, 255, (double)r.Int(0, 255)}) : r.Int(0, 5); };
  for (long i = 0; i < n; i++) {
    double p = r.Int(0, 2), d = r.Int(0, 2); int k = i < 4 ? 0 : r.Int(0, 99);
    if (k < 5) s.Add(i, "attach", {p, d});
    else if (k < 7) s.Add(i, "detach", {(double)r.Int(0, 9)});
    else if (k < 8) s.Add(i, "move", {(double)r.Int(0, 9)});
    else if (k < 9) s.Add(i, "close", {p});
    else if (k < 30) s.Add(i, "cwrite", {p, d, adr(), len(), (double)r.Int(0, 1)});
    else if (k < 50) s.Add(i, "cread", {p, d, adr(), len(), (double)r.Int(0, 1)});
    else if (k < 60) s.Add(i, "point", {p, d, adr()});
    else if (k < 75) s.Add(i, "bwrite", {p, d, adr(), len()});
    else if (k < 85) s.Add(i, "bread", {p, d, len()});
    else if (k < 93) s.Add(i, "command", {p, d, adr(), len()});
    else s.Add(i, "ccommand", {p, d, len(), (double)r.Int(0, 1)});
  }
  return s;
}
void Run3(const Script& s, Ctx& c) {
  s2e::environment::ClockGenerator clock; bool c2a = s.P("c2a"); auto obc = Computer(c2a, &clock); std::vector<std::unique_ptr<Target>> dev; std::map<long, Bus> bus; long ctr = 0, alt = 0;
  auto data = [&](long n) { Bytes b(n); for (auto& x : b) x = Pat(ctr++); return b; };
  auto buf = [&](long n) { std::unique_ptr<unsigned char[]> b(new unsigned char[n]); memset(b.get(), 0xEE, n); return b; };
  for (auto& e : s.ev) {
    long p = e.I(0); int d = 0x20 + e.I(1); Bus& b = bus[p]; bool known = b.open && b.reg.count(d); alt++;
    auto target = [&]() -> Target* { for (auto& t : dev) if (t->port == p && t->addr == d) return t.get(); return nullptr; };
    auto put = [&](int a, unsigned char v) { if (a < kRegs) { b.reg[d][a] = v; b.ptr = a; } };
    auto same = [&](const unsigned char* got, const Bytes& want, const char* key, const char* what) { for (size_t i = 0; i < want.size(); i++) c.Check(got[i] == want[i], key, "%s: port %ld device %02x byte %zu is %02x, expected %02x", what, p, d, i, got[i], want[i]); };
    if (e.kind == "attach") { dev.push_back(std::make_unique<Target>(p, d, obc.get())); b.open = true; b.reg[d].assign(kRegs, 0); b.cmd[d].assign(kRegs, 0); c.Count("device attached"); c.Check(dev.back()->Hils() == -4, "mode", "hardware function without hardware"); continue; }
    if (e.kind == "detach") { if (dev.empty()) continue; size_t i = p % dev.size(); long q = dev[i]->port; dev.erase(dev.begin() + i); bus[q] = Bus(); c.Count("device removed, port closed"); continue; }
    if (e.kind == "move") { if (dev.empty()) continue; size_t i = p % dev.size(); auto m = std::make_unique<Target>(std::move(*dev[i])); dev[i] = std::move(m); c.Count("device object moved"); continue; }
    if (e.kind == "close") { int r = obc->I2cCloseComPort(p); c.Check(r == (b.open ? 0 : -1), "close", "closing port %ld returned %d", p, r); b = Bus(); c.Count("port closed under its devices"); continue; }
    if (b.open && !known) continue;  // devices never attached to this bus are not addressed
    int want = b.open ? 0 : -1; if (!b.open) c.Count("access to a closed port"); int r = 0; Target* t = nullptr;
    if (e.kind == "cwrite") {
      long a = e.I(2), n = e.I(3); Bytes v = data(n); auto w = buf(n); std::copy(v.begin(), v.end(), w.get());
      if (e.I(4) && (t = target())) t->WrReg(a, w.get(), n); else { r = obc->I2cComponentWriteRegister(p, d, a, w.get(), n); c.Check(r == want, "result", "register write on port %ld returned %d", p, r); }
      if (known) for (long i = 0; i < n; i++) put(a + i, v[i]); if (known && a + n > kRegs) c.Count("access beyond the register space");
    } else if (e.kind == "cread") {
      long a = e.I(2), n = e.I(3); auto w = buf(n);
      if (e.I(4) && (t = target())) t->RdReg(a, w.get(), n); else { r = obc->I2cComponentReadRegister(p, d, a, w.get(), n); c.Check(r == want, "result", "register read on port %ld returned %d", p, r); }
      if (known) { Bytes v(n, 0); for (long i = 0; i < n; i++) if (a + i < kRegs) { v[i] = b.reg[d][a + i]; b.ptr = a + i; } same(w.get(), v, "register", "component read"); c.State((uint64_t)a * 256 + n); } else same(w.get(), Bytes(n, 0xEE), "closed-port", "read on a closed port");
    } else if (e.kind == "ccommand") {
      long n = e.I(2); auto w = buf(n); if (e.I(3) && (t = target())) t->RdCmd(w.get(), n); else { r = obc->I2cComponentReadCommand(p, d, w.get(), n); c.Check(r == want, "result", "command read on port %ld returned %d", p, r); }
      if (known) same(w.get(), Bytes(b.cmd[d].begin(), b.cmd[d].begin() + n), "command", "component command read"); else same(w.get(), Bytes(n, 0xEE), "closed-port", "command read on a closed port");
    } else if (!c2a) continue;
    else if (e.kind == "point" || e.kind == "bwrite") {
      Bytes v; if (e.kind == "point") v = {(unsigned char)e.I(2)}; else { v = data(std::min(254l, e.I(3)) + 1); v[0] = e.I(2); } auto w = buf(v.size()); std::copy(v.begin(), v.end(), w.get());
      r = alt % 2 ? ObcWithC2a::I2cWriteRegister(p, d, w.get(), v.size()) : OBC_C2A_I2cWriteRegister(p, d, w.get(), v.size()); c.Check(r == want, "result", "bus write on port %ld returned %d", p, r);
      if (known) { if (v.size() == 1) { if (v[0] < kRegs) b.ptr = v[0]; } else for (size_t i = 1; i < v.size(); i++) put(v[0] + i - 1, v[i]); }
    } else if (e.kind == "bread") {
      long n = e.I(2); auto w = buf(n); r = alt % 2 ? ObcWithC2a::I2cReadRegister(p, d, w.get(), n) : OBC_C2A_I2cReadRegister(p, d, w.get(), n); c.Check(r == want, "result", "bus read on port %ld returned %d", p, r);
      if (known) { Bytes v(n); for (auto& x : v) { x = b.reg[d][b.ptr]; b.ptr = (b.ptr + 1) % kRegs; } same(w.get(), v, "register", "bus read"); c.State(100000u + (uint64_t)b.ptr); } else same(w.get(), Bytes(n, 0xEE), "closed-port", "bus read on a closed port");
    } else if (e.kind == "command") {
      Bytes v = data(e.I(3)); if (!v.empty()) v[0] = e.I(2); auto w = buf(v.size()); std::copy(v.begin(), v.end(), w.get());
      r = alt % 2 ? ObcWithC2a::I2cWriteCommand(p, d, w.get(), v.size()) : OBC_C2A_I2cWriteCommand(p, d, w.get(), v.size()); c.Check(r == want, "result", "command on port %ld returned %d", p, r);
      if (known) { std::copy(v.begin(), v.end(), b.cmd[d].begin()); if (v.size() == 1 && v[0] < kRegs) b.ptr = v[0]; if (v.size() == 2) put(v[0], v[1]); c.Count("command"); }
    }
    c.Hist((uint64_t)r + 7 * (uint64_t)b.ptr);
    // every register of every device as seen by the components must be what the model says (the pointer of each bus is put back by reading its register again)
    if (e.t % 16 == 15 || e.t + 1 == (long)s.ev.size()) for (auto& kb : bus) if (kb.second.open) for (auto& kd : kb.second.reg) {
      unsigned char all[255], cm[255]; obc->I2cComponentReadRegister(kb.first, kd.first, 0, all, 255); obc->I2cComponentReadCommand(kb.first, kd.first, cm, 255); obc->I2cComponentReadRegister(kb.first, kd.first, kb.second.ptr, all + kb.second.ptr, 1);
      for (int i = 0; i < kRegs; i++) c.Check(all[i] == kd.second[i] && cm[i] == kb.second.cmd[kd.first][i], "register", "after %s on port %ld device %02x: port %ld device %02x register %d is %02x, expected %02x (command byte %02x, expected %02x)", e.kind.c_str(), p, d, kb.first, kd.first, i, all[i], kd.second[i], cm[i], kb.second.cmd[kd.first][i]);
    }
  }
  c.nontrivial = s.ev.size() > 6;
}
Registrar reg3{[] { Property p; p.id = "C03"; p.generate = Gen3; p.execute = Run3; p.quick_runs = 4000; p.thorough_runs = 300000; p.simple = {{"c2a", 0}};
  p.states_measure = "distinct (start register, length) accesses and bus pointer positions"; p.real = "I2cPort, OnBoardComputer, ObcWithC2a (without C2A), I2cTargetCommunicationWithObc"; p.stub = "flight software (scripted)";
  p.level_note = "devices that were never attached to a bus are not addressed"; return p; }()};

// ---------------------------------------------------------------- GPIO
struct Edge { int port; bool up; bool level; };
class Watcher : public IGPIOCompo {
 public:
  std::vector<Edge> seen; GpioPort* line = nullptr; int answer = 0, depth = 0, left = 0;  // answer: 0 none, 1 drives the line back, 2 repeats the level
  void GpioStateChanged(const int port, const bool up) override {
    seen.push_back({port, up, line->DigitalRead()});
    if (answer && left > 0) { left--; line->DigitalWrite(answer == 1 ? !up : up); }
  }
};
class Gpio : public GpioConnectionWithObc { public: using GpioConnectionWithObc::GpioConnectionWithObc; bool R(int i) { return Read(i); } void W(int i, bool h) { Write(i, h); } };
Script Gen4(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["c2a"] = r.Chance(0.6); s.p["answer"] = r.Int(0, 2); long n = r.Int(10, thorough ? 500 : 150);
  for (long i = 0; i < n; i++) {
    int k = i < 2 ? 0 : r.Int(0, 99); double p = r.Int(0, 4);
    if (k < 5) s.Add(i, "connect", {p});
    else if (k < 9) s.Add(i, "component", {p, (double)r.Int(0, 4)});
    else if (k < 40) s.Add(i, "write", {p, (double)r.Int(0, 1), (double)r.Int(0, 2)});
    else if (k < 65) s.Add(i, "read", {p, 0, (double)r.Int(0, 2)});
    else s.Add(i, "drive", {(double)r.Int(0, 2), (double)r.Int(0, 1), (double)r.Int(0, 3)});
  }
  return s;
}
void Run4(const Script& s, Ctx& c) {
  s2e::environment::ClockGenerator clock; bool c2a = s.P("c2a"); auto obc = Computer(c2a, &clock); std::map<int, bool> level; std::vector<std::pair<std::unique_ptr<Gpio>, std::vector<int>>> comps;
  const int kL = 3; Watcher w[kL]; std::unique_ptr<GpioPort> line[kL]; bool lv[kL] = {false, false, false};
  for (int i = 0; i < kL; i++) { line[i].reset(new GpioPort(40 + i, i == 2 ? nullptr : &w[i])); w[i].line = line[i].get(); w[i].answer = s.L("answer"); c.Check(!line[i]->DigitalRead(), "initial-level", "line not low at the start"); }
  for (auto& e : s.ev) {
    int p = e.I(0); auto via = [&](int port) -> std::pair<Gpio*, int> { for (auto& q : comps) for (size_t i = 0; i < q.second.size(); i++) if (q.second[i] == port) return {q.first.get(), (int)i}; return {nullptr, 0}; };
    if (e.kind == "connect") { bool used = level.count(p); int r = obc->GpioConnectPort(p); c.Check(r == (used ? -1 : 0), "connect", "connecting %s line %d returned %d", used ? "a used" : "a free", p, r); if (!used) level[p] = false; else c.Count("connect of a used line"); }
    else if (e.kind == "component") { std::vector<int> ports = {p}; if (e.I(1) != p) ports.push_back(e.I(1)); comps.push_back({std::make_unique<Gpio>(ports, obc.get()), ports}); for (int q : ports) if (!level.count(q)) level[q] = false; else c.Count("connect of a used line"); }
    else if (e.kind == "write") {
      bool h = e.I(1); auto v = via(p);
      if (e.I(2) == 1 && v.first) { v.first->W(v.second, h); } else { int r = e.I(2) == 2 && c2a ? (p % 2 ? ObcWithC2a::GpioWrite_C2A(p, h) : OBC_C2A_GpioWrite(p, h)) : obc->GpioComponentWrite(p, h); c.Check(r == (level.count(p) ? 0 : -1), "write-result", "drive of line %d returned %d", p, r); }
      if (level.count(p)) level[p] = h; else c.Count("drive of an unconnected line");
    } else if (e.kind == "drive") {
      bool h = e.I(1); size_t before = w[p].seen.size(); int ans = p == 2 ? 0 : s.L("answer"); w[p].left = ans ? e.I(2) : 0; long left = w[p].left; bool old = lv[p]; std::vector<bool> want;
      // reference: level changes and the component reacts at once
      std::function<void(bool)> drive = [&](bool x) { bool ch = lv[p] != x; lv[p] = x; if (ch) { want.push_back(x); if (ans && left > 0) { left--; drive(ans == 1 ? !x : x); } } }; drive(h);
      int r = line[p]->DigitalWrite(h); c.Check(r == 0, "write-result", "drive returned %d", r); size_t n = p == 2 ? 0 : want.size();
      c.Check(w[p].seen.size() - before == n, "edge-count", "line %d driven %d -> %d: %zu notifications, expected %zu", p, old, h, w[p].seen.size() - before, n);
      for (size_t i = 0; i < n; i++) { const Edge& g = w[p].seen[before + i]; c.Check(g.port == 40 + p && g.up == want[i], "edge", "line %d: notification %zu says port %d %s", p, i, g.port, g.up ? "rising" : "falling"); c.Check(g.level == want[i], "level-at-edge", "line %d reads %d when its %s edge is reported", p, g.level, want[i] ? "rising" : "falling"); }
      if (n) c.Count("edge"); if (n > 1) c.Count("component drives the line while being notified");
    }
    for (int i = 0; i < kL; i++) c.Check(line[i]->DigitalRead() == lv[i], "level", "line %d reads %d, expected %d", i, (int)line[i]->DigitalRead(), (int)lv[i]);
    for (int q = 0; q < 5; q++) {
      bool want = level.count(q) && level[q]; auto v = via(q); bool g = obc->GpioComponentRead(q); c.Check(g == want, "level", "line %d of the computer reads %d, expected %d", q, g, want); 
      if (v.first) c.Check(v.first->R(v.second) == want, "level", "line %d reads differently at the component", q); if (c2a) c.Check(ObcWithC2a::GpioRead_C2A(q) == want && OBC_C2A_GpioRead(q) == want, "level", "line %d reads differently at the flight software", q);
    }
    uint64_t st = 0; for (int i = 0; i < kL; i++) st = st * 2 + lv[i]; for (int q = 0; q < 5; q++) st = st * 3 + (level.count(q) ? 1 + level[q] : 0); c.State(st); c.Hist(st);
  }
  c.nontrivial = s.ev.size() > 5;
}
Registrar reg4{[] { Property p; p.id = "C04"; p.generate = Gen4; p.execute = Run4; p.quick_runs = 3000; p.thorough_runs = 200000; p.simple = {{"c2a", 0}, {"answer", 0}};
  p.states_measure = "distinct joint states of all lines"; p.real = "GpioPort, OnBoardComputer, ObcWithC2a (without C2A), GpioConnectionWithObc"; p.stub = "the notified component and the flight software"; p.level_note = "lines of an on-board computer have no component attached for notification; notification is exercised on ports directly"; return p; }()};

// ---------------------------------------------------------------- SLIP and byte order
const unsigned char kEnd = 0xc0, kEsc = 0xdb, kTEnd = 0xdc, kTEsc = 0xdd;
Script Gen5(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; long n = r.Int(2, thorough ? 60 : 25);
  for (long i = 0; i < n; i++) {
    int mix = r.Int(0, 3); long len = r.Chance(0.1) ? 0 : r.Chance(0.1) ? r.Int(100, 700) : r.Int(1, 20); std::string b;
    for (long k = 0; k < len; k++) b += Fmt("%02x", mix == 0 ? (unsigned)r.Int(0, 255) : mix == 1 ? (unsigned)r.Pick<int>({kEnd, kEsc, kTEnd, kTEsc}) : mix == 2 ? (unsigned)r.Pick<int>({kEsc, kEsc, kEnd, 0, 1}) : (unsigned)r.Pick<int>({kTEnd, kTEsc, kEsc, 65}));
    s.Add(i, "frame", {(double)r.Int(0, 1), (double)(r.Chance(0.4) ? 0 : r.Int(1, 7)), (double)r.Int(0, 100000), (double)r.Int(0, 255)}, b.empty() ? "-" : b);
    if (r.Chance(0.3)) s.Add(i, "endian", {(double)r.Int(0, 40), (double)r.Int(0, 5), (double)r.Int(0, 100000)});
  }
  return s;
}
void Run5(const Script& s, Ctx& c) {
  Bytes pending;  // receiver: bytes since the last delimiter
  for (auto& e : s.ev) {
    if (e.kind == "endian") {
      long n = e.I(0), off = e.I(1); Rng r(e.I(2)); std::unique_ptr<unsigned char[]> src(new unsigned char[n + off]), wire(new unsigned char[n]), back(new unsigned char[n]); for (long i = 0; i < n + off; i++) src[i] = (unsigned char)r.U64(); Bytes copy(src.get(), src.get() + n + off);
      c.Check(s2e::utilities::endian_memcpy(wire.get(), src.get() + off, n) == wire.get(), "endian", "wrong return value"); s2e::utilities::endian_memcpy(back.get(), wire.get(), n);
      for (long i = 0; i < n; i++) { c.Check(back[i] == src[off + i], "endian", "byte %ld of %ld differs after conversion and back", i, n); c.Check(wire[i] == src[off + n - 1 - i], "endian", "byte %ld of %ld on the wire is not in network order", i, n); }
      c.Check(std::equal(copy.begin(), copy.end(), src.get()), "endian", "source changed"); c.Count("byte-order conversion"); continue;
    }
    Bytes p; if (e.s != "-") for (size_t i = 0; i + 1 < e.s.size(); i += 2) p.push_back((unsigned char)strtol(e.s.substr(i, 2).c_str(), nullptr, 16));
    bool hdr = e.I(0); Bytes want; if (hdr) want.push_back(kEnd); for (unsigned char x : p) { if (x == kEnd) { want.push_back(kEsc); want.push_back(kTEnd); } else if (x == kEsc) { want.push_back(kEsc); want.push_back(kTEsc); } else want.push_back(x); } want.push_back(kEnd);
    Bytes f = hdr ? s2e::utilities::encode_slip_with_header(p) : s2e::utilities::encode_slip(p);
    c.Check(f == want, "encoding", "frame of %zu bytes for a payload of %zu is not the SLIP encoding (%zu bytes)", f.size(), p.size(), want.size());
    Bytes d = hdr ? s2e::utilities::decode_slip_with_header(f) : s2e::utilities::decode_slip(f); c.Check(d == p, "round-trip", "payload of %zu bytes decodes to %zu bytes", p.size(), d.size()); c.Hist(Hash64(f.data(), f.size())); c.State(Hash64(p.data(), std::min<size_t>(p.size(), 3)));
    Bytes tail = f; tail.insert(tail.end(), {1, 2, kEsc, kEnd, 3}); d = hdr ? s2e::utilities::decode_slip_with_header(tail) : s2e::utilities::decode_slip(tail); c.Check(d == p, "boundary", "bytes behind the delimiter change the payload");
    // the line
    Bytes l = f; Rng r(e.I(2)); size_t at = l.empty() ? 0 : r.U64() % l.size(); bool intact = false;
    switch (e.I(1)) {
      case 1: l.resize(at); c.Count("truncated frame"); break;
      case 2: l[at] = e.I(3); c.Count("corrupted byte"); break;
      case 3: l.insert(l.begin() + at, l[at]); c.Count("duplicated byte"); break;
      case 4: l.erase(l.begin() + at); c.Count("lost byte"); break;
      case 5: for (int k = 0; k < 4; k++) l.insert(l.begin() + r.U64() % (l.size() + 1), (unsigned char)r.Pick<int>({kEnd, kEsc, kTEnd, 7})); c.Count("interleaved bytes"); break;
      case 6: l.clear(); c.Count("lost frame"); break;
      case 7: l.erase(l.begin(), l.begin() + at); c.Count("frame joined late"); break;
      default: intact = true;
    }
    for (const Bytes& x : {l, Bytes(l.begin() + (l.empty() ? 0 : 1), l.end())}) for (int h = 0; h < 2; h++) { Bytes y = h ? s2e::utilities::decode_slip_with_header(x) : s2e::utilities::decode_slip(x); c.Check(y.size() <= x.size(), "decoded-size", "%zu line bytes decode to %zu", x.size(), y.size()); }
    if (intact && !pending.empty()) { pending.clear(); }  // a receiver resynchronises at the delimiter in front of a frame
    for (unsigned char x : l) {
      pending.push_back(x); if (x != kEnd) continue;
      bool empty = pending.size() == 1; Bytes y = s2e::utilities::decode_slip(pending); pending.clear();
      if (intact && !(hdr && empty && !p.empty())) { c.Check(y == p || empty, "no-recovery", "intact frame after line faults decodes to %zu bytes instead of %zu", y.size(), p.size()); c.Count("intact frame received"); }
    }
  }
  c.nontrivial = s.ev.size() > 1;
}
Registrar reg5{[] { Property p; p.id = "C05"; p.generate = Gen5; p.execute = Run5; p.quick_runs = 3000; p.thorough_runs = 200000;
  p.states_measure = "distinct first three payload bytes"; p.real = "slip.cpp, endian.cpp"; p.stub = "the line"; return p; }()};
}  // namespace
