// Serial links: byte streams between on-board computer and components.
#include <components/examples/example_serial_communication_with_obc.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <deque>
#include "world/world.hpp"
using namespace sim;
using namespace s2e::components;
namespace {
using Bytes = std::vector<unsigned char>;
// One direction of a link: what was written and not yet read. After an overrun the content is unknown until the link was drained.
struct Fifo {
  std::deque<unsigned char> q; long cap = 0; bool lost = false; long outstanding = 0;
  void Write(const unsigned char* d, long n) { outstanding += n; if (lost) return; if ((long)q.size() + n > cap) { lost = true; q.clear(); return; } q.insert(q.end(), d, d + n); }
  long Free() const { return lost ? 0 : cap - (long)q.size(); }
  // checks the result of a read of up to n bytes
  void Read(Ctx& c, const unsigned char* d, long n, long got, const char* what) {
    c.Check(got >= 0 && got <= n && got <= outstanding, "read-count", "%s: read of %ld returned %ld with %ld bytes outstanding", what, n, got, outstanding); outstanding -= got;
    if (lost) { if (got < n) { lost = false; outstanding = 0; } return; }
    long want = std::min<long>(n, q.size()); c.Check(got == want, "read-count", "%s: read of %ld returned %ld, %zu bytes are outstanding", what, n, got, q.size());
    for (long i = 0; i < got; i++) { c.Check(d[i] == q.front(), "byte-order", "%s: byte %ld is %02x, expected %02x", what, i, d[i], q.front()); q.pop_front(); }
  }
};
struct Link { bool open = false; Fifo down, up; };  // down: computer to component
unsigned char Pat(long n) { return (unsigned char)((n * 2654435761u) >> 13); }
}  // namespace
// C2A entry points
int OBC_C2A_SendFromObc(int port_id, unsigned char* buffer, int offset, int length);
int OBC_C2A_ReceivedByObc(int port_id, unsigned char* buffer, int offset, int length);
namespace {
Script Gen1(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["c2a"] = r.Chance(0.5); long n = r.Int(30, thorough ? 1500 : 400); bool big = r.Chance(0.3); double clip = r.Pick<double>({0.9, 0.98, 1.0, 1.0});
  auto size = [&]() -> double { return big ? r.Pick<double>({0, 64, 100, 1000, 1024, 2000}) : (double)r.Int(1, 20); };
  for (long i = 0; i < n; i++) {
    double port = r.Int(0, 2), len = r.Chance(0.1) ? 0 : big ? r.Int(1, r.Chance(0.3) ? 1500 : 120) : r.Int(1, 24);
    int k = r.Int(0, 99);
    if (k < 6 || i < 3) s.Add(i, "connect", {i < 3 ? (double)i : port, size(), size()});
    else if (k < 8) s.Add(i, "close", {port});
    else if (k < 54) s.Add(i, "write", {port, (double)r.Int(0, 1), len, (double)r.Pick<int>({0, 0, 1, 7}), (double)r.Chance(clip)});
    else s.Add(i, "read", {port, (double)r.Int(0, 1), r.Chance(0.15) ? 5000 : len, (double)r.Pick<int>({0, 0, 2, 9}), (double)r.Int(0, 2)});
  }
  return s;
}
void Run1(const Script& s, Ctx& c) {
  s2e::environment::ClockGenerator clock; bool c2a = s.P("c2a"); std::unique_ptr<OnBoardComputer> obc;
  if (c2a) obc.reset(new ObcWithC2a(&clock)); else obc.reset(new OnBoardComputer(&clock));
  std::map<long, Link> links; long ctr = 0, alt = 0;
  for (auto& e : s.ev) {
    long port = e.I(0); Link& l = links[port]; alt++;
    if (e.kind == "connect") {
      int r = obc->ConnectComPort(port, e.I(1), e.I(2)); c.Check(r == (l.open ? -1 : 0), "connect", "connecting %s port %ld returned %d", l.open ? "used" : "free", port, r);
      if (!l.open) { l = Link(); l.open = true; l.down.cap = (e.I(1) > 0 ? e.I(1) : 1024) - 1; l.up.cap = (e.I(2) > 0 ? e.I(2) : 1024) - 1; c.Count("connect"); } else c.Count("connect of a used port");
    } else if (e.kind == "close") {
      int r = obc->CloseComPort(port); c.Check(r == (l.open ? 0 : -1), "close", "closing %s port %ld returned %d", l.open ? "used" : "free", port, r); if (l.open) c.Count("disconnect with traffic pending", !l.down.q.empty() || !l.up.q.empty()); l = Link();
    } else if (e.kind == "write") {
      bool up = e.I(1); Fifo& f = up ? l.up : l.down; long n = e.I(2), off = e.I(3); if (e.I(4) && l.open) n = std::min(n, f.Free());
      std::unique_ptr<unsigned char[]> b(new unsigned char[off + n]); for (long i = 0; i < off + n; i++) b[i] = Pat(ctr++); Bytes copy(b.get(), b.get() + off + n);
      int r = up ? obc->SendFromCompo(port, b.get(), off, n) : c2a && alt % 3 == 1 ? ObcWithC2a::SendFromObc_C2A(port, b.get(), off, n) : c2a && alt % 3 == 2 ? OBC_C2A_SendFromObc(port, b.get(), off, n) : obc->SendFromObc(port, b.get(), off, n);
      c.Check(std::equal(copy.begin(), copy.end(), b.get()), "writer-buffer", "writing changed the caller's buffer");
      if (!l.open) { c.Check(r == -1, "closed-port", "write to a closed port returned %d", r); c.Count("write to a closed port"); continue; }
      f.Write(copy.data() + off, n); if (f.lost) c.Count("buffer overrun"); else c.Check(r == n, "write-count", "write of %ld bytes returned %d", n, r);
    } else {
      bool up = e.I(1); Fifo& f = up ? l.up : l.down; long n = e.I(2), off = e.I(3), guard = e.I(4);
      std::unique_ptr<unsigned char[]> b(new unsigned char[off + n + guard]); for (long i = 0; i < off + n + guard; i++) b[i] = 0xA5 ^ (unsigned char)i;
      int r = !up ? obc->ReceivedByCompo(port, b.get(), off, n) : c2a && alt % 3 == 1 ? ObcWithC2a::ReceivedByObc_C2A(port, b.get(), off, n) : c2a && alt % 3 == 2 ? OBC_C2A_ReceivedByObc(port, b.get(), off, n) : obc->ReceivedByObc(port, b.get(), off, n);
      long got = std::max(0, r);
      if (!l.open) { c.Check(r == -1, "closed-port", "read from a closed port returned %d", r); c.Count("read from a closed port"); }
      else { c.State((uint64_t)(f.q.size() * 4096 + n) * 2 + up); f.Read(c, b.get() + off, n, r, up ? "at the computer" : "at the component"); if (got < n && got > 0) c.Count("short read"); }
      for (long i = 0; i < off + n + guard; i++) if (i < off || i >= off + got) c.Check(b[i] == (unsigned char)(0xA5 ^ (unsigned char)i), "reader-buffer", "read of %ld at offset %ld returned %d and changed byte %ld", n, off, r, i);
      c.Hist((uint64_t)r);
    }
  }
  c.nontrivial = ctr > 20;
}
Registrar reg1{[] { Property p; p.id = "C01"; p.generate = Gen1; p.execute = Run1; p.quick_runs = 4000; p.thorough_runs = 400000; p.simple = {{"c2a", 0}};
  p.states_measure = "distinct (fill level, requested length, direction) situations"; p.real = "OnBoardComputer, ObcWithC2a (without C2A), UartPort, RingBuffer"; p.stub = "flight software and components (scripted writers and readers)";
  p.level_note = "after an overrun only memory safety and the byte count are checked until the direction has been drained"; return p; }()};

// ---------------------------------------------------------------- commands and telemetry through component base class
class Dev : public UartCommunicationWithObc {
 public:
  Dev(unsigned port, OnBoardComputer* o) : UartCommunicationWithObc(port, o) {}
  Dev(unsigned port, unsigned tx, unsigned rx, OnBoardComputer* o) : UartCommunicationWithObc(port, tx, rx, o) {}
  int Receive(unsigned off, unsigned n) { parsed = -1; offset = off; return ReceiveCommand(off, n); }
  int Send(unsigned off) { generated = 0; offset = off; return SendTelemetry(off); }
  long parsed = -1, generated = 0, offset = 0, tlm = 0, seq = 0; Bytes last, sent;
 private:
  int ParseCommand(const int n) override { parsed = n; last.assign(rx_buffer_.begin() + offset, rx_buffer_.begin() + offset + n); return 4711; }
  int GenerateTelemetry() override {
    generated++; sent.clear();
    for (long i = 0; i < tlm; i++) { unsigned char b = Pat(seq++); sent.push_back(b); if (offset + i < (long)tx_buffer_.size()) tx_buffer_[offset + i] = b; }
    return tlm;
  }
};
class Example : public ExampleSerialCommunicationWithObc {
 public:
  using ExampleSerialCommunicationWithObc::ExampleSerialCommunicationWithObc;
  PowerPort* Port() { return power_port_; }
};
Script Gen2(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["example"] = r.Chance(0.4); s.p["c2a"] = r.Chance(0.5); s.p["tx"] = r.Chance(0.3) ? -1 : r.Pick<double>({0, 1, 2, 5, 8, 64, 100, 1023, 1024, 5000}); s.p["rx"] = r.Pick<double>({0, 1, 2, 5, 8, 64, 100, 1023, 1024, 5000});
  s.p["pre"] = r.Int(1, 4); long n = r.Int(20, thorough ? 800 : 250); bool flood = r.Chance(0.3);
  for (long i = 0; i < n; i++) {
    int k = r.Int(0, 99);
    if (s.P("example")) {
      if (k < 25) s.Add(i, "set", {(double)r.Int(0, 255), (double)r.Int(0, 9)});     // command with line fault 0..
      else if (k < 30) s.Add(i, "noise", {(double)r.Int(1, flood ? 1200 : 12), (double)r.Int(0, 1000000)});
      else if (k < 65) s.Add(i, "tick", {(double)r.Int(1, flood ? 14 : 4)});
      else if (k < 92) s.Add(i, "read", {(double)(r.Chance(0.5) ? 4000 : r.Int(0, 150))});
      else s.Add(i, "power", {(double)r.Chance(0.6)});
    } else {
      if (k < 35) s.Add(i, "send", {(double)(flood ? r.Int(0, 1500) : r.Int(0, 30)), (double)r.Int(0, 6)});
      else if (k < 60) s.Add(i, "receive", {(double)r.Pick<int>({0, 0, 0, 1, 3, 7, 1024}), (double)(r.Chance(0.2) ? r.Int(0, 1200) : r.Int(0, 16))});
      else if (k < 80) s.Add(i, "telemetry", {(double)r.Pick<int>({0, 0, 0, 1, 4, 1024}), (double)(r.Chance(0.1) ? -r.Int(1, 5) : r.Chance(0.3) ? r.Int(0, 1500) : r.Int(0, 40))});
      else if (k < 98) s.Add(i, "read", {(double)(r.Chance(0.5) ? 4000 : r.Int(0, 50))});
      else s.Add(i, "rebuild", {});
    }
  }
  return s;
}
void Run2(const Script& s, Ctx& c) {
  s2e::environment::ClockGenerator clock; std::unique_ptr<OnBoardComputer> obc;
  if (s.P("c2a")) obc.reset(new ObcWithC2a(&clock)); else obc.reset(new OnBoardComputer(&clock));
  Fifo down, up; const long port = 3; long ctr = 0;
  auto obc_read = [&](long n) { std::unique_ptr<unsigned char[]> b(new unsigned char[n]); int r = obc->ReceivedByObc(port, b.get(), 0, n); up.Read(c, b.get(), n, r, "telemetry at the computer"); c.Hist((uint64_t)r); };
  auto obc_send = [&](Bytes b, int fault, Rng& r) {  // what the line does to the bytes of one transmission
    static const char* fn[] = {"", "", "", "line: byte lost", "line: byte duplicated", "line: byte corrupted", "line: bytes swapped", "line: truncated", "line: split transmission", "line: preceded by a stray byte"};
    size_t n = b.size(); if (n && fault >= 3) { size_t i = r.U64() % n; c.Count(fn[std::min(fault, 9)]);
      if (fault == 3) b.erase(b.begin() + i); else if (fault == 4) b.insert(b.begin() + i, b[i]); else if (fault == 5) b[i] ^= 1 << (r.U64() % 8); else if (fault == 6 && i + 1 < n) std::swap(b[i], b[i + 1]); else if (fault == 7) b.resize(i); else if (fault == 9) b.insert(b.begin(), 'S'); }
    if (b.empty()) return;
    std::unique_ptr<unsigned char[]> p(new unsigned char[b.size()]); std::copy(b.begin(), b.end(), p.get());
    obc->SendFromObc(port, p.get(), 0, b.size()); down.Write(b.data(), b.size()); if (down.lost) c.Count("receive buffer overrun");
  };
  if (s.P("example")) {
    Example ex(&clock, port, s.L("pre"), obc.get()); c.Check(ex.IsConnected(), "connect", "component not connected"); down.cap = up.cap = 1023;
    std::deque<unsigned char> mem(100, 0); bool on = true; long tick = 0;
    long len = 0; { clock.TickToComponents(); tick++; unsigned char q[2048]; len = obc->ReceivedByObc(port, q, 0, 2048); c.Check(len == 100 || len == 24, "telemetry-length", "the component sent a frame of %ld bytes instead of 100", len); }
    for (auto& e : s.ev) {
      Rng r(s.seed * 1000003 + e.t);
      if (e.kind == "set") { obc_send({'S', 'E', 'T', (unsigned char)e.I(0), '\n'}, e.I(1), r); }
      else if (e.kind == "noise") { Rng g(e.I(1)); Bytes b; for (long i = 0; i < e.I(0); i++) b.push_back("SETX"[g.U64() % 4]); obc_send(b, 0, r); c.Count("garbage on the line"); }
      else if (e.kind == "power") { on = e.I(0); ex.Port()->SetVoltage_V(on ? 5.0 : 0.0); c.Count(on ? "power on" : "power off"); }
      else if (e.kind == "read") obc_read(e.I(0));
      else for (long i = 0; i < e.I(0); i++, tick++) {
        clock.TickToComponents(); c.sim_time_s += 0.001;
        if (tick % s.L("pre") || !on) continue;
        bool unknown = down.lost;
        if (!unknown) {
          Bytes b; while (b.size() < 5 && !down.q.empty()) { b.push_back(down.q.front()); down.q.pop_front(); } down.outstanding -= b.size();
          if (b.size() >= 4 && b[0] == 'S' && b[1] == 'E' && b[2] == 'T') { mem.pop_back(); mem.push_front(b[3]); mem[99] = '\n'; c.Count("command executed"); }
          Bytes f(mem.begin(), mem.begin() + len); up.Write(f.data(), f.size()); c.State(Hash64(b.data(), b.size()));
        } else {
          // content of the receive buffer unknown after an overrun: learn what the component did from its telemetry, after draining both directions
          for (int k = 0; k < 1100 * s.L("pre"); k++) { clock.TickToComponents(); tick++; std::unique_ptr<unsigned char[]> q(new unsigned char[4096]); obc->ReceivedByObc(port, q.get(), 0, 4096); }
          while (tick % s.L("pre") != s.L("pre") - 1) { clock.TickToComponents(); tick++; }
          unsigned char q[4096]; while (obc->ReceivedByObc(port, q, 0, 4096) > 0) {}
          clock.TickToComponents(); tick++; int n = obc->ReceivedByObc(port, q, 0, 4096); c.Check(n == len, "telemetry-stops", "after an overrun the component sent a frame of %d bytes", n); std::copy(q, q + len, mem.begin());
          down = up = Fifo(); down.cap = up.cap = 1023; c.Count("recovery from overrun");
        }
      }
    }
    // well-formed exchange at the end, whatever happened before
    ex.Port()->SetVoltage_V(5.0);
    for (int k = 0; k < 1100 * s.L("pre"); k++) { clock.TickToComponents(); unsigned char q[512]; obc->ReceivedByObc(port, q, 0, 512); }
    unsigned char q[2048], cmd[5] = {'S', 'E', 'T', 0x5a, '\n'}; while (obc->ReceivedByObc(port, q, 0, 2048) > 0) {}
    obc->SendFromObc(port, cmd, 0, 5); for (int k = 0; k < s.L("pre"); k++) clock.TickToComponents();
    int n = obc->ReceivedByObc(port, q, 0, 2048); c.Check(n == len && q[0] == 0x5a && (len < 100 || q[99] == '\n'), "no-recovery", "well-formed command at the end: telemetry of %d bytes starting with %02x", n, q[0]);
    c.nontrivial = tick > 5;
    c.Check(len == 100, "example-telemetry-length", "the serial communication example sends %ld of the 100 bytes of its telemetry frame", len); return;
  }
  std::unique_ptr<Dev> dev; long tx = s.L("tx"), rx = s.L("rx");
  auto build = [&] {
    dev.reset(); dev.reset(tx < 0 ? new Dev(port, obc.get()) : new Dev(port, tx, rx, obc.get())); c.Check(dev->IsConnected(), "connect", "component not connected"); down = up = Fifo();
    auto eff = [](long v) { return std::min(v, 1024l); }; 
    down.cap = (tx < 0 ? 1024 : eff(rx) ? eff(rx) : 1024) - 1; up.cap = (tx < 0 ? 1024 : eff(tx) ? eff(tx) : 1024) - 1;
  };
  build(); long rxs = tx < 0 ? 1024 : std::min(rx, 1024l), txs = tx < 0 ? 1024 : std::min(tx, 1024l);
  { Dev second(port, obc.get()); c.Check(!second.IsConnected(), "connect", "two components connected to one port"); }
  for (auto& e : s.ev) {
    Rng r(s.seed * 1000003 + e.t);
    if (e.kind == "send") { Bytes b; for (long i = 0; i < e.I(0); i++) b.push_back(Pat(ctr++)); obc_send(b, e.I(1) < 3 ? 0 : e.I(1), r); }
    else if (e.kind == "read") obc_read(e.I(0));
    else if (e.kind == "rebuild") { build(); c.Count("component replaced"); }
    else if (e.kind == "receive") {
      long off = e.I(0), n = e.I(1); int ret = dev->Receive(off, n); c.Hist((uint64_t)ret);
      if (off + n > rxs) { c.Check(ret == -1 && dev->parsed < 0, "oversized-receive", "reception of %ld bytes at %ld in a buffer of %ld returned %d", n, off, rxs, ret); c.Count("oversized reception"); continue; }
      if (dev->parsed < 0) { c.Check(down.lost || n == 0 || down.q.empty(), "lost-command", "%zu received bytes were not handed to the parser", down.q.size()); c.Check(ret == 0, "receive-result", "reception without data returned %d", ret); if (n > 0) down.lost = false, down.outstanding = 0; continue; }
      c.Check(dev->parsed > 0, "empty-command", "parser called with %ld bytes", dev->parsed); c.Check(ret == 4711, "receive-result", "result of the parser was not returned");
      down.Read(c, dev->last.data(), n, dev->parsed, "command at the component"); c.State((uint64_t)n * 2048 + dev->parsed); c.Count("command parsed");
    } else if (e.kind == "telemetry") {
      long off = e.I(0); dev->tlm = e.I(1); long size = std::max(0l, dev->tlm); int ret = dev->Send(off); c.Hist((uint64_t)ret); c.Check(dev->generated == 1, "telemetry-count", "telemetry generated %ld times for one transmission", dev->generated);
      if (e.I(1) < 0 || off + size > txs) { c.Check(ret == -1, "oversized-telemetry", "telemetry of %ld bytes at %ld in a buffer of %ld returned %d", dev->tlm, off, txs, ret); c.Count("oversized or failed telemetry"); }
      else { c.Check(ret == 0, "telemetry-result", "telemetry of %ld bytes returned %d", size, ret); up.Write(dev->sent.data(), size); c.Count("telemetry sent"); }
    }
  }
  c.nontrivial = s.ev.size() > 10;
}
Registrar reg2{[] { Property p; p.id = "C02"; p.generate = Gen2; p.execute = Run2; p.quick_runs = 4000; p.thorough_runs = 300000; p.simple = {{"c2a", 0}, {"pre", 1}};
  p.states_measure = "distinct (requested, delivered) sizes and received fragments"; p.real = "UartCommunicationWithObc, ExampleSerialCommunicationWithObc, OnBoardComputer, ObcWithC2a, ports, ring buffers, clock, component base"; p.stub = "flight software (scripted)";
  p.level_note = "after an overrun of a buffer the content is not checked until the direction has been drained"; return p; }()};
}  // namespace
