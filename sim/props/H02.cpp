// Hardware-in-the-loop ports: UART components, I2C controllers and I2C targets on simulated cables.
#include <components/base/i2c_controller.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/base/uart_communication_with_obc.hpp>
#include <components/examples/example_i2c_controller_for_hils.hpp>
#include <components/examples/example_i2c_target_for_hils.hpp>
#include <components/examples/example_serial_communication_for_hils.hpp>
#include "world/world.hpp"
using namespace sim;
using namespace s2e::components;
using s2e::simulation::HilsPortManager;
using Bytes = std::vector<unsigned char>;
namespace {
unsigned char Pat(long n) { return (unsigned char)(((uint64_t)n * 2654435761u) >> 13); }
std::string Hex(const Bytes& b) { std::string s; for (size_t i = 0; i < b.size() && i < 24; i++) s += Fmt("%02x ", b[i]); return s + Fmt("(%zu bytes)", b.size()); }
class Uart : public UartCommunicationWithObc {
 public:
  Uart(unsigned p, HilsPortManager* m) : UartCommunicationWithObc(p, 115200u, m) {}
  Uart(unsigned p, unsigned tx, unsigned rx, HilsPortManager* m) : UartCommunicationWithObc(p, 115200u, tx, rx, m) {}
  Uart(unsigned p, int dual, HilsPortManager* m) : UartCommunicationWithObc(dual, nullptr, p, 9600u, m) {}
  int Get(unsigned off, unsigned n) { parsed = 0; at = off; return ReceiveCommand(off, n); }
  int Put(unsigned off, const Bytes& b) { next = b; toff = off; return SendTelemetry(off); }
  Bytes got, next; unsigned at = 0, toff = 0; int parsed = 0;
 private:
  int ParseCommand(int n) override { parsed++; got.insert(got.end(), rx_buffer_.begin() + at, rx_buffer_.begin() + at + n); return n; }
  int GenerateTelemetry() override { if (tx_buffer_.size() < toff + next.size()) tx_buffer_.resize(toff + next.size()); std::copy(next.begin(), next.end(), tx_buffer_.begin() + toff); return (int)next.size(); }
};
class Master : public I2cController {
 public:
  Master(unsigned p, unsigned tx, unsigned rx, HilsPortManager* m) : I2cController(p, 115200u, tx, rx, m) {}
  int Put(const Bytes& b) { tx_buffer_ = b; if (tx_buffer_.empty()) tx_buffer_.resize(1); return SendCommand((unsigned char)b.size()); }
  int Get(unsigned char n, Bytes& b) { rx_buffer_.assign(std::max<int>(1, n), 0xEE); int r = ReceiveTelemetry(n); b = rx_buffer_; return r; }
};
class Slave : public I2cTargetCommunicationWithObc {
 public:
  Slave(unsigned p, HilsPortManager* m) : I2cTargetCommunicationWithObc(p, 0x21, m) {}
  Slave(unsigned p, int dual, HilsPortManager* m) : I2cTargetCommunicationWithObc(dual, p, 0x21, nullptr, m) {}
  Slave(Slave&& o) noexcept : I2cTargetCommunicationWithObc(std::move(o)) {}
  void RdReg(unsigned char r, unsigned char* d, unsigned char n) { ReadRegister(r, d, n); }
  void WrReg(unsigned char r, const unsigned char* d, unsigned char n) { WriteRegister(r, d, n); }
  void RdCmd(unsigned char* d, unsigned char n) { ReadCommand(d, n); }
  int Rx() { return ReceiveCommand(); }
  int Tx(unsigned char n) { return SendTelemetry(n); }
  int Frames() { return GetStoredFrameCounter(); }
  int Store(unsigned k, unsigned char n) { return StoreTelemetry(k, n); }
};
const int kRegs = 255;
// what is on one cable
struct Line {
  int kind = -1;                       // 0 UART, 1 I2C controller, 2 I2C target; -1 free
  std::unique_ptr<Uart> u; std::unique_ptr<Master> m; std::unique_ptr<Slave> s; unsigned tx = 0, rx = 0;
  Bytes wire_in, wire_out, got;        // expected: bytes at the port, bytes on the cable; got: bytes taken by the component
  Bytes reg = Bytes(256, 0), cmd = Bytes(256, 0); int ptr = 0, frames = 0;
};
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["ports"] = (double)r.Int(1, 4); long n = r.Int(20, thorough ? 500 : 220); bool faults = r.Chance(0.7); int style = r.Int(0, 2);
  for (long i = 0; i < n; i++) {
    double p = r.Int(1, s.L("ports")); int k = i < 3 ? 0 : r.Int(0, 99); auto len = [&]() -> double { return r.Chance(0.1) ? r.Int(0, 1030) : r.Int(0, style == 2 ? 300 : 12); };
    if (k < 5) s.Add(i, "connect", {p, (double)r.Int(0, 2), (double)r.Int(0, 2), (double)r.Pick<long>({1, 4, 16, 64, 255, 1024, 5000}), (double)r.Pick<long>({1, 4, 16, 64, 255, 1024, 5000})});
    else if (k < 8) s.Add(i, "release", {p});
    else if (k < 9) s.Add(i, "move", {p});
    else if (k < 35) s.Add(i, "arrive", {p, r.Chance(0.3) ? r.Int(1, 2) : len()});
    else if (k < 55) s.Add(i, "take", {p, r.Chance(0.8) ? 0 : len(), len()});
    else if (k < 75) s.Add(i, "send", {p, r.Chance(0.8) ? 0 : len(), len()});
    else if (k < 83) s.Add(i, "store", {p, (double)r.Int(0, 5), r.Chance(0.8) ? r.Int(0, 8) : r.Int(0, 255)});
    else if (k < 92) s.Add(i, "registers", {p, r.Chance(0.7) ? r.Int(0, 6) : r.Int(240, 255), (double)r.Int(0, 20), (double)r.Int(0, 1)});
    else if (!faults) continue;
    else if (k < 94) s.Add(i, "fragment", {p, (double)r.Pick<long>({1, 2, 3, 7, 1 << 20})});
    else if (k < 96) s.Add(i, "write fault", {p, (double)r.Int(1, 3)});
    else if (k < 98) s.Add(i, "unplug", {p});
    else s.Add(i, "lose", {p, (double)r.Int(1, 5)});
  }
  return s;
}
void Run(const Script& s, Ctx& c) {
  HilsCables().clear(); HilsPortManager man; std::map<long, Line> line; long ctr = 0, moved = 0; auto data = [&](long n) { Bytes b(n); for (auto& x : b) x = Pat(ctr++); return b; };
  auto clear = [&](Line& l) { l = Line(); };
  for (auto& e : s.ev) {
    long p = e.I(0); Line& l = line[p]; HilsCable& w = HilsCables()[p]; c.sim_time_s += 1; size_t out0 = w.out.size();
    if (e.kind == "connect") {
      unsigned tx = (unsigned)e.I(3), rx = (unsigned)e.I(4); int kind = (int)e.I(1); bool uart_map = l.kind == 0 || l.kind == 1;
      if (l.kind < 0) {
        w.in.clear(); l.wire_in.clear();
        if (kind == 0) { if (e.I(2) == 0) { l.u.reset(new Uart(p, &man)); tx = rx = 1024; } else if (e.I(2) == 1) l.u.reset(new Uart(p, tx, rx, &man)); else { l.u.reset(new Uart((unsigned)p, (int)7, &man)); tx = rx = 1024; } l.tx = std::min(1024u, tx); l.rx = std::min(1024u, rx); c.Check(l.u->IsConnected(), "connect", "port %ld is free but the component is not connected", p); }
        else if (kind == 1) { l.m.reset(new Master(p, tx, rx, &man)); l.tx = tx; l.rx = rx; }
        else { l.s.reset(e.I(2) ? new Slave((unsigned)p, &man) : new Slave((unsigned)p, 3, &man)); l.tx = l.rx = 512; }
        l.kind = kind; c.Check(w.owner != nullptr, "connect", "port %ld is not open after connecting", p); c.Count("connect");
      } else if ((kind == 2) != uart_map || (kind == 2 && l.kind == 2)) {  // the same kind of port again: rejected, and going away leaves the owner alone
        void* owner = w.owner; long opens = w.opens;
        if (kind == 0) { Uart x(p, tx, rx, &man); c.Check(!x.IsConnected(), "double-connect", "port %ld was connected twice", p); } else if (kind == 1) { Master x(p, tx, rx, &man); } else { Slave x((unsigned)p, &man); }
        c.Check(w.owner == owner && w.opens == opens, "double-connect", "port %ld changed hands when a second component tried to connect", p); c.Count("second connect on a used port");
      }
      continue;
    }
    if (e.kind == "arrive") { Bytes b = data(e.I(1)); if (w.owner) { w.in.insert(w.in.end(), b.begin(), b.end()); l.wire_in.insert(l.wire_in.end(), b.begin(), b.end()); } c.Count("bytes arrive"); continue; }
    if (e.kind == "fragment") { w.max_read = std::max(1l, e.I(1)); c.Count("fragmentation"); continue; }
    if (e.kind == "write fault") { w.fail_writes = (int)e.I(1); c.Count("write fault"); continue; }
    if (e.kind == "unplug") { w.unplugged = !w.unplugged; c.Count("unplug or replug"); continue; }
    if (e.kind == "lose") { for (long i = 0; i < e.I(1) && !w.in.empty(); i++) { w.in.pop_back(); l.wire_in.pop_back(); } c.Count("bytes lost on the cable"); continue; }
    if (l.kind < 0) continue;
    if (e.kind == "release") { l.u.reset(); l.m.reset(); l.s.reset(); c.Check(w.owner == nullptr, "release", "port %ld is still open after its component went away", p); for (auto& o : line) if (o.first != p && o.second.kind >= 0) c.Check(HilsCables()[o.first].owner != nullptr, "release", "releasing port %ld closed port %ld", p, o.first); clear(l); c.Count("release"); continue; }
    if (e.kind == "move") { if (l.s) { l.s.reset(new Slave(std::move(*l.s))); c.Check(w.owner != nullptr, "release", "moving the component on port %ld closed the port", p); moved++; c.Count("move"); } continue; }
    bool dead = w.unplugged;
    // takes what a read of n bytes is allowed to deliver
    auto expect = [&](unsigned n) { Bytes b; while (b.size() < n && b.size() < (size_t)w.max_read && b.size() < l.wire_in.size()) b.push_back(l.wire_in[b.size()]); return b; };
    auto drop = [&](size_t n) { l.wire_in.erase(l.wire_in.begin(), l.wire_in.begin() + n); };
    auto wrote = [&](const Bytes& b, const char* who) { bool fail = dead; if (!fail && w.fail_writes > 0) fail = true; return fail ? Bytes() : b; };
    if (e.kind == "take") {
      unsigned off = (unsigned)e.I(1), n = (unsigned)e.I(2);
      if (l.kind == 0) {
        size_t g0 = l.u->got.size(); bool bad = off > l.rx || off + n > l.rx; Bytes want = bad || dead ? Bytes() : expect(n); int r = l.u->Get(off, n); Bytes got(l.u->got.begin() + g0, l.u->got.end());
        c.Check(got == want, "received", "port %ld: a read of %u bytes delivered %s instead of %s", p, n, Hex(got).c_str(), Hex(want).c_str()); drop(want.size());
        if (bad) c.Check(r < 0, "bounds", "port %ld: reading %u bytes at %u of a %u byte buffer returned %d", p, n, off, l.rx, r); else if (!want.empty()) c.Check(r == (int)want.size(), "received", "port %ld: %zu bytes parsed, returned %d", p, want.size(), r); else c.Check(r <= 0 && !l.u->parsed, "received", "port %ld: nothing to read, but %d returned", p, r);
        c.Count(want.empty() ? "read of nothing" : "read");
      } else if (l.kind == 1) {
        n = std::min(n, 255u); Bytes b, want = n > l.rx || dead || n == 0 ? Bytes() : expect(n); if (n == 0) continue; int r = l.m->Get((unsigned char)n, b); c.Check(want.empty() ? r <= 0 : r == (int)want.size(), "received", "port %ld: reading %u bytes returned %d of %zu", p, n, r, want.size());
        if (r > 0) c.Check(Bytes(b.begin(), b.begin() + r) == want, "received", "port %ld: read %s instead of %s", p, Hex(b).c_str(), Hex(want).c_str()); drop(want.size()); c.Count(want.empty() ? "read of nothing" : "read");
      } else {
        Bytes want = dead ? Bytes() : expect(255); int r = l.s->Rx(); c.Check(want.empty() ? r <= 0 : r == (int)want.size(), "received", "port %ld: a command of %zu bytes returned %d", p, want.size(), r); drop(want.size());
        std::copy(want.begin(), want.end(), l.cmd.begin()); Bytes b(256, 0xEE); l.s->RdCmd(b.data(), (unsigned char)want.size()); c.Check(std::equal(want.begin(), want.end(), b.begin()), "received", "port %ld: the command reads %s instead of %s", p, Hex(b).c_str(), Hex(want).c_str()); c.Check(b[want.size()] == 0xEE, "bounds", "reading a command of %zu bytes wrote more", want.size());
        l.s->RdCmd(b.data(), 255); for (int i = 0; i < 255; i++) c.Check(b[i] == l.cmd[i], "received", "port %ld: byte %d of the command buffer is %02x instead of %02x", p, i, b[i], l.cmd[i]);
        if (want.size() == 1) { if (want[0] < kRegs) l.ptr = want[0]; if (l.frames > 0) l.frames--; c.Count("register address from the wire"); } else if (want.size() == 2) { if (want[0] < kRegs) { l.ptr = want[0]; l.reg[want[0]] = want[1]; } c.Count("register value from the wire"); } else c.Count(want.empty() ? "read of nothing" : "read");
      }
    } else if (e.kind == "send") {
      unsigned off = (unsigned)e.I(1), n = (unsigned)e.I(2); Bytes want;
      if (l.kind == 0) { Bytes b = data(n); bool bad = off > l.tx || off + n > l.tx; if (!bad) want = wrote(b, "u"); int r = l.u->Put(off, b); if (bad) c.Check(r < 0, "bounds", "port %ld: sending %u bytes at %u of a %u byte buffer returned %d", p, n, off, l.tx, r); c.Count(bad ? "oversized send" : "send"); }
      else if (l.kind == 1) { n = std::min({n, 255u, l.tx}); Bytes b = data(n); want = wrote(b, "m"); bool ok = !dead && w.fail_writes == 0; int r = l.m->Put(b); if (ok) c.Check(r == 0, "sent", "port %ld: sending %u bytes returned %d", p, n, r); c.Count("send"); }
      else { n = std::min(n, 255u); bool bad = l.ptr + (int)n > kRegs; Bytes b(l.reg.begin() + l.ptr, l.reg.begin() + std::min<int>(256, l.ptr + n)); bool fails = dead || w.fail_writes > 0; if (!bad) want = wrote(b, "s"); int r = l.s->Tx((unsigned char)n); if (!bad && !fails) l.frames++; c.Check((r == 0) == (!bad && !fails), "sent", "port %ld: sending %u registers from %d returned %d", p, n, l.ptr, r); c.Count(bad ? "oversized send" : "send"); }
      Bytes got(w.out.begin() + out0, w.out.end()); c.Check(got == want, "sent", "port %ld: %s on the cable instead of %s", p, Hex(got).c_str(), Hex(want).c_str());
    } else if (e.kind == "store" && l.kind == 2) {
      unsigned k = (unsigned)e.I(1); unsigned n = (unsigned)e.I(2); int miss = (int)k - l.frames; bool bad = l.ptr + (int)n > kRegs; Bytes b(l.reg.begin() + l.ptr, l.reg.begin() + std::min<int>(256, l.ptr + n)), want; int f = w.fail_writes; for (int i = 0; i < miss && !bad; i++) { if (dead) continue; if (f > 0) { f--; continue; } want.insert(want.end(), b.begin(), b.end()); l.frames++; }
      int r = l.s->Store(k, (unsigned char)n); if (miss <= 0) c.Check(r < 0, "sent", "port %ld: storing up to %u frames with %d stored returned %d", p, k, l.frames, r); Bytes got(w.out.begin() + out0, w.out.end()); c.Check(got == want, "sent", "port %ld: storing frames put %s on the cable instead of %s", p, Hex(got).c_str(), Hex(want).c_str()); c.Count("store frames");
    } else if (e.kind == "registers" && l.kind == 2) {
      int a = (int)e.I(1), n = (int)e.I(2); if (e.I(3)) { Bytes b = data(n); l.s->WrReg((unsigned char)a, b.data(), (unsigned char)n); for (int i = 0; i < n && a + i < kRegs; i++) { l.reg[a + i] = b[i]; l.ptr = a + i; } c.Count("register write"); }
      else { Bytes b(n + 1, 0xEE); l.s->RdReg((unsigned char)a, b.data(), (unsigned char)n); for (int i = 0; i < n; i++) { unsigned char v = a + i < kRegs ? l.reg[a + i] : 0; if (a + i < kRegs) l.ptr = a + i; c.Check(b[i] == v, "registers", "port %ld: register %d reads %02x instead of %02x", p, a + i, b[i], v); } c.Check(b[n] == 0xEE, "bounds", "reading %d registers wrote more", n); c.Count("register read"); }
    }
    if (l.kind == 2) { c.Check(l.s->Frames() == l.frames, "frames", "port %ld counts %d stored frames instead of %d", p, l.s->Frames(), l.frames); c.State((uint64_t)l.ptr * 16 + std::min(l.frames, 15)); } else if (l.kind >= 0) c.State(Fmt("%d %zu %d", l.kind, std::min<size_t>(l.wire_in.size(), 40), w.fail_writes));
    for (auto& o : line) if (o.first != p && o.second.kind >= 0) c.Check(HilsCables()[o.first].in.size() == o.second.wire_in.size(), "crosstalk", "an operation on port %ld changed port %ld", p, o.first);
    c.Check(w.in.size() == l.wire_in.size(), "conservation", "port %ld holds %zu unread bytes instead of %zu", p, w.in.size(), l.wire_in.size());
    c.Hist((uint64_t)w.out.size()); c.Hist((uint64_t)w.in.size()); if (!w.out.empty()) c.Hist((uint64_t)w.out.back()); if (!w.out.empty() || !l.wire_in.empty()) c.nontrivial = true;
  }
}
Registrar reg{[] { Property p; p.id = "H02"; p.generate = Gen; p.execute = Run; p.quick_runs = 8000; p.thorough_runs = 500000; p.states_measure = "distinct (kind of port, unread bytes or register pointer, frames or failing writes) situations"; p.simple = {{"ports", 1}};
  p.real = "HilsPortManager, HilsI2cTargetPort, I2cController, I2cTargetCommunicationWithObc, UartCommunicationWithObc in the hardware build (USE_HILS)"; p.stub = "HilsUartPort (C++/CLI on the Windows serial port API) is one end of a simulated cable"; p.level_note = "up to four cables"; return p; }()};
}  // namespace
