// Operation scripts sent to the flight software; cycles of the flight software.
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <components/real/communication/wings_command_sender_to_c2a.hpp>
#include <sstream>
#include "src_core/c2a_core_main.h"
#include "world/world.hpp"
using namespace sim;
namespace {
const std::vector<std::string> kTypes = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double"};
std::string Value(Rng& r, const std::string& t) {
  if (t == "float" || t == "double") return Fmt("%.*g", (int)r.Int(1, 15), r.Gauss() * r.Pick<double>({1e-6, 1, 1e5}));
  bool sg = t[0] == 'i'; int bits = atoi(t.c_str() + (sg ? 3 : 4)); uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1; 
  if (!sg) return Fmt("%llu", (unsigned long long)(r.Chance(0.2) ? m : r.Chance(0.2) ? 0 : r.U64() & m));
  int64_t hi = (int64_t)(m >> 1); return Fmt("%lld", (long long)(r.Chance(0.2) ? hi : r.Chance(0.2) ? -hi - 1 : (int64_t)(r.U64() & (m >> 1)) * (r.Chance(0.5) ? 1 : -1)));
}
const int kHuge = 80; struct Cmd { std::string name; unsigned long id; std::vector<std::string> types; };
std::vector<Cmd> Database(uint64_t seed) {
  Rng r(seed * 31 + 7); std::vector<Cmd> v; int n = r.Int(1, 8);
  for (int i = 0; i < n; i++) { Cmd c{Fmt("Cmd_%c%d_DO", 'A' + i, i), (unsigned long)r.Int(i * 100, i * 100 + 99), {}}; int k = r.Chance(0.04) ? r.Int(20, 53) : r.Int(0, 6); for (int j = 0; j < k; j++) c.types.push_back(r.Pick(kTypes)); v.push_back(c); }
  return v;
}
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; auto db = Database(seed); s.p["step"] = r.Pick<double>({0.001, 0.01, 0.1, 0.25, 1}); s.p["pre"] = r.Int(1, 5); s.p["enable"] = !r.Chance(0.05); s.p["crlf"] = r.Chance(0.15); s.p["badfile"] = r.Int(0, 19); s.p["reg"] = r.Int(1, 4); s.p["obcpre"] = r.Int(1, 3);
  long n = r.Int(3, thorough ? 60 : 25);
  for (long i = 0; i < n; i++) {
    int k = r.Int(0, 11); std::string pre = r.Chance(0.15) ? "." : "", post = r.Chance(0.3) ? r.Pick<std::string>({" # remark 1 2", " # remark # with another", "# attached", "#1#2"}) : ""; if (r.Chance(0.1)) pre += " "; if (r.Chance(0.1)) post = "   " + post;
    const Cmd& c = r.Pick(db); std::string args; for (auto& t : c.types) args += (r.Chance(0.1) ? "  " : " ") + Value(r, t);
    if (k <= 3) s.Add(i, "rt", {(double)(&c - &db[0])}, pre + "MOBC_RT." + c.name + args + post);
    else if (k == 4) s.Add(i, "tl", {(double)(&c - &db[0]), (double)r.Int(0, 1000000)}, ""), s.ev.back().s = pre + "SC_TL." + c.name + Fmt(" %ld", s.ev.back().I(1)) + args + post;
    else if (k <= 6) { double w = r.Chance(0.1) ? 0 : r.Int(0, 40) * s.P("step") * s.P("pre") * r.Pick<double>({1, 1, 0.3, 0.77}); s.Add(i, "wait", {w}, pre + Fmt("wait_sec %.6g", w) + post); s.ev.back().a[0] = atof(Fmt("%.6g", w).c_str()); }
    else if (k == 7) s.Add(i, "skip", {}, r.Pick<std::string>({"# MOBC_RT." + c.name + args, "#", "-empty-", "     ", "\t\t\t", ".", ". ", "   # only a remark", "#wait_sec 1000", "# MOBC_RT." + c.name + args + " # sent yesterday", "ab"}));
    else if (k == 8) s.Add(i, "skip", {}, r.Pick<std::string>({"check_value SC.TLM 3", "let x = 1", "let", "check_value", "MOBC_BL." + c.name + " 12" + args}));
    else {
      std::string bad = c.types.empty() ? " 7" : " x7"; std::string fewer = args; if (!c.types.empty()) fewer = fewer.substr(0, fewer.find_last_of(' '));
      std::vector<std::string> v = {"MOBC_RT.Cmd_UNKNOWN" + args, "MOBC_RT.Cmd_BROKEN", "MOBC_RT.Cmd_BROKEN 1", "MOBC_RT.Cmd_BROKEN 1 2 3", "MOBC_RT_" + c.name + args, "MOBCRT" + c.name, "MOBC_RT." + c.name + args + " 12", "SC_TL." + c.name + " ten" + args, "SC_TL.Cmd_UNKNOWN", "wait_sec", "wait_sec soon", "MOBC_RT." + c.name + " {x}" + args, "MOBC_RT." + c.name + bad + args, "MOBC_XX." + c.name + args, ".....", "____", "MOBC_RT."};
      if (!c.types.empty()) { v.push_back("MOBC_RT." + c.name + fewer); v.push_back("SC_TL." + c.name); v.push_back("SC_TL." + c.name + " 5" + fewer); }
      if (r.Chance(0.08)) { std::string huge = "MOBC_RT.Cmd_HUGE"; for (int j = 0; j < kHuge; j++) huge += " 2.5"; v = {huge}; }  // more than a packet can carry
      s.Add(i, "bad", {}, pre + r.Pick(v) + post);
    }
  }
  s.Add(n, "dbnoise", {(double)r.Int(0, 1000000)}); return s;
}
std::vector<uint8_t> Encode(const std::vector<std::string>& types, std::istringstream& is) {
  std::vector<uint8_t> out; for (auto& t : types) {
    std::string w; is >> w; uint64_t v = 0; int n = 8;
    if (t == "float") { float f = strtof(w.c_str(), nullptr); uint32_t u; memcpy(&u, &f, 4); v = u; n = 4; } else if (t == "double") { double f = strtod(w.c_str(), nullptr); memcpy(&v, &f, 8); }
    else { bool sg = t[0] == 'i'; n = atoi(t.c_str() + (sg ? 3 : 4)) / 8; v = sg ? (uint64_t)strtoll(w.c_str(), nullptr, 10) : strtoull(w.c_str(), nullptr, 10); }
    for (int i = n - 1; i >= 0; i--) out.push_back((uint8_t)(v >> (8 * i)));
  }
  return out;
}
void Run(const Script& s, Ctx& c) {
  auto db = Database(s.seed); std::string text, eol = s.P("crlf") ? "\r\n" : "\n", base = "Component,Name,Target,Code,Params,,,,\nMOBC,,,,Num Params,Param1,,Param2,\nComment,,,,,Type,Description,Type,Description\n* Cmd_EXAMPLE,,,,,,,,\n";
  double noise = -1; for (auto& e : s.ev) if (e.kind == "dbnoise") noise = e.A(0);
  Rng nr((uint64_t)(noise + 2)); const std::vector<std::string> junk = {"", ",", ",,,,,,,,", ",Cmd_BROKEN", ",Cmd_BROKEN,,0x1", ",Cmd_BROKEN,OBC,zz,0", ",Cmd_BROKEN,OBC,0x10,x", ",Cmd_BROKEN,OBC,0x10,3,uint8_t", ",Cmd_BROKEN,OBC,0x10,99999999999", "*,comment", ",Cmd_BROKEN,,,,", "no comma at the start,1,2,3,4"};
  for (auto& k : db) {
    if (noise >= 0 && nr.Chance(0.4)) { base += nr.Pick(junk) + "\n"; c.Count("malformed database line"); }
    std::string line = "," + k.name + ",OBC," + (nr.Chance(0.5) ? Fmt("0x%lx", k.id) : Fmt("%lu", k.id)) + Fmt(",%zu", k.types.size()); for (auto& t : k.types) line += "," + t + ",text"; base += line + (nr.Chance(0.5) ? ",,,danger,,remark\n" : "\n");
  }
  base += Fmt(",Cmd_HUGE,OBC,0x7001,%d", kHuge); for (int j = 0; j < kHuge; j++) base += ",double,text"; base += "\n";
  for (auto& e : s.ev) if (e.kind != "dbnoise") text += (e.s == "-empty-" ? "" : e.s) + eol;
  long badfile = s.L("badfile"); bool no_ops = badfile == 1, no_db = badfile == 2;
  if (!no_ops) WriteFile("ops.wops", text); if (!no_db) WriteFile("cmd_db.csv", base);
  WriteFile("wings.ini", Fmt("[WINGS_COMMAND_SENDER_TO_C2A]\ncommand_send_enable = %s\nprescaler = %ld\nc2a_command_database_file = cmd_db.csv\nwings_operation_file = ops.wops\n", s.P("enable") ? "ENABLE" : "DISABLE", s.L("pre")));
  struct Want { int kind; uint32_t ti; unsigned long code; std::vector<uint8_t> param; double waits; long lines, nwaits; std::string text; }; std::vector<Want> want; double waits = 0; long lines = 0, nwaits = 0;
  if (!no_ops && s.P("enable")) for (auto& e : s.ev) {
    lines++; if (e.kind == "wait") { waits += e.A(0); nwaits++; c.Count("wait"); continue; }
    if (e.kind == "skip") { c.Count("comment, blank or unsupported line"); continue; } if (e.kind == "bad") { c.Count("malformed line"); continue; } if (e.kind == "dbnoise") continue;
    size_t k = e.I(0); if (k >= db.size() || no_db) continue;  // without database every command is unknown
    std::istringstream is(e.s); std::string w; is >> w; if (w == ".") is >> w; uint32_t ti = 0; if (e.kind == "tl") is >> ti; want.push_back({e.kind == "tl", ti, db[k].id, Encode(db[k].types, is), waits, lines, nwaits, e.s}); waits = 0; lines = 0; nwaits = 0;
  }
  s2e::environment::ClockGenerator clock; double step = s.P("step"); auto sender = s2e::components::InitWingsCommandSenderToC2a(&clock, step, "wings.ini");
  std::unique_ptr<s2e::components::PowerPort> port(new s2e::components::PowerPort); port->SetVoltage_V(5); s2e::components::ObcWithC2a obc((int)s.L("obcpre"), &clock, (int)s.L("reg"), port.get());
  double total = waits; long nl = lines + 5; for (auto& w : want) { total += w.waits + 2 * step; nl += w.lines + 2 * w.nwaits + 2; } nl += 2 * nwaits;
  double period = step * s.L("pre"); long ticks = (long)(total / step * 1.01) + (nl + 10) * s.L("pre"); if (ticks > 60000) ticks = 60000;
  std::string life; bool first = true, on = true;
  for (g_c2a_tick = 0; g_c2a_tick < ticks; g_c2a_tick++) {
    if (g_c2a_tick % 37 == 36) { on = !on; port->SetVoltage_V(on ? 5 : 0); c.Count(on ? "computer on" : "computer off"); }
    clock.TickToComponents(); c.sim_time_s += step;
    if (g_c2a_tick % s.L("obcpre") == 0 && on) { if (first) life += "TIWZ"; first = false; for (long i = 0; i < s.L("reg"); i++) life += "cx"; }
  }
  c.Check(g_c2a_life == life, "flight-software-cycles", "flight software ran %zu steps (starting %s), expected %zu", g_c2a_life.size(), g_c2a_life.substr(0, 12).c_str(), life.size());
  auto& got = g_c2a_calls; double last = 0; auto hex = [](const std::vector<uint8_t>& v) { std::string o; for (auto x : v) o += Fmt("%02x", x); return o; };
  for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
    if (i >= want.size()) c.Fail("extra-command", "command %lu sent although the script has ended", got[i].code);
    if (i >= got.size()) { if (ticks >= 60000) break; c.Fail("missing-command", "command %zu of the script never sent: %s", i, want[i].text.c_str()); }
    const auto& w = want[i]; c.Check(got[i].kind == w.kind && got[i].code == w.code && got[i].ti == w.ti && got[i].param == w.param, "wrong-command", "command %zu '%s': sent %s code %lu ti %u parameters %s, expected code %lu ti %u %s", i, w.text.c_str(), got[i].kind ? "TL" : "RT", got[i].code, got[i].ti, hex(got[i].param).c_str(), w.code, w.ti, hex(w.param).c_str());
    double t = got[i].tick * step, dt = t - last; c.Check(dt >= w.waits - 1e-6 - 1e-9 * t, "too-early", "command %zu sent %.9g s after its predecessor, waits of %.9g s precede it", i, dt, w.waits);
    c.Check(dt <= w.waits * (1 + 1e-9) + (w.lines + 2 * w.nwaits + 2) * period + 1e-6, "too-late", "command %zu sent %.9g s after its predecessor: waits of %.9g s and %ld lines", i, dt, w.waits, w.lines); last = t;
    c.Hist((uint64_t)got[i].tick * 1000 + got[i].code); c.State((uint64_t)(i * 1000003) + got[i].code * 7 + w.nwaits); c.Count("command sent");
  }
  c.nontrivial = !want.empty();
}
Registrar reg{[] { Property p; p.id = "C06"; p.generate = Gen; p.execute = Run; p.quick_runs = 3000; p.thorough_runs = 200000; p.simple = {{"crlf", 0}, {"pre", 1}, {"badfile", 0}, {"reg", 1}, {"obcpre", 1}};
  p.states_measure = "distinct (position, command, preceding waits) situations"; p.real = "WingsCommandSenderToC2a, WingsOperationFile, C2aCommandDatabase, ObcWithC2a (USE_C2A), endian, component base and clock"; p.stub = "C2A flight software (recording stand-in for its headers)"; return p; }()};
}  // namespace
