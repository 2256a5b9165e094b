// Product files of navigation services (antenna phase centres in ANTEX, signal biases in Bias-SINEX, orbits in SP3) arrive on the simulated disk intact or
// damaged in transfer and are read through a disk that fails, is slow or returns little at a time.
// Oracle: the entries from which the file was written, and the bytes up to which the file is intact.
#include <string.h>
#include <cmath>
#include <map>
#include <math_physics/gnss/antex_file_reader.hpp>
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
#include <math_physics/gnss/gnss_satellite_number.hpp>
#include <math_physics/gnss/sp3_file_reader.hpp>
#include "core/seams.hpp"
#include "core/sim.hpp"
using namespace sim;
using namespace s2e::gnss;
using s2e::time_system::DateTime;
using s2e::time_system::EpochTime;
namespace {
struct When { long y = 0, m = 1, d = 1, h = 0, mi = 0; double s = 0; };
When RandWhen(Rng& r) { When w; w.y = r.Int(1980, 2060); w.m = r.Int(1, 12); w.d = r.Int(1, 28); w.h = r.Int(0, 23); w.mi = r.Int(0, 59); w.s = r.Chance(0.4) ? 0 : r.Chance(0.3) ? 59.9999999 : std::floor(r.Uni(0, 59.9) * 1e7) / 1e7; return w; }
bool Same(const DateTime& d, const When& w) { return (long)d.GetYear() == w.y && (long)d.GetMonth() == w.m && (long)d.GetDay() == w.d && (long)d.GetHour() == w.h && (long)d.GetMinute() == w.mi && std::fabs(d.GetSecond() - w.s) < 1e-9; }
std::string Show(const DateTime& d) { return Fmt("%zu/%zu/%zu %zu:%zu:%.9g", d.GetYear(), d.GetMonth(), d.GetDay(), d.GetHour(), d.GetMinute(), d.GetSecond()); }
double Rnd(double v, int digits) { return std::strtod(Fmt("%.*f", digits, v).c_str(), nullptr); }
std::string Pad(std::string s, size_t n) { s.resize(n, ' '); return s; }
// ---------------------------------------------------------------- ANTEX
struct Freq { std::string name; double off[3]; std::vector<double> pcv; };
struct Ant { std::string type, serial; size_t index = 0; When from, until; long z1 = 0; double z2 = 90, dz = 5; size_t nz = 0; std::vector<Freq> f; size_t end = 0; };
struct File { std::string text; std::vector<std::pair<size_t, size_t>> blocks; };  // blocks: bytes in which a cut leaves a block of the file open
std::string L(const std::string& body, const char* label) { return Pad(body, 60) + Pad(label, 20) + "\n"; }
std::string SatCode(Rng& r, size_t& index) {
  const char sys[] = "GRECJI"; const size_t n[] = {kNumberOfGpsSatellite, kNumberOfGlonassSatellite, kNumberOfGalileoSatellite, kNumberOfBeidouSatellite, kNumberOfQzssSatellite, kNumberOfNavicSatellite}, b[] = {kGpsIndexBegin, kGlonassIndexBegin, kGalileoIndexBegin, kBeidouIndexBegin, kQzssIndexBegin, kNavicIndexBegin};
  int k = (int)r.Int(0, 5); long q = r.Chance(0.3) ? (r.Chance(0.5) ? 1 : (long)n[k]) : r.Int(1, (long)n[k]); index = b[k] + (size_t)q - 1; return Fmt("%c%02ld", sys[k], q);
}
File MakeAtx(Rng& r, long na, std::vector<Ant>& sats, bool receivers) {
  File o; std::string& t = o.text; t += L("     1.4            M", "ANTEX VERSION / SYST") + L("A", "PCV TYPE / REFANT"); for (long i = r.Int(0, 6); i > 0; i--) t += r.Chance(0.2) ? std::string("short line\n") : L(r.Pick<std::string>({"", "START OF ANTENNA", "a comment about antennas", "   NOAZI   1.0"}), "COMMENT"); t += L("", "END OF HEADER");
  for (long i = 0; i < na; i++) {
    size_t begin = t.size(); t += L("", "START OF ANTENNA"); bool rec = receivers && r.Chance(0.3); Ant a; static const char* types[] = {"BLOCK IIF", "BLOCK IIR-M", "GLONASS-M", "GALILEO-2", "BEIDOU-3M", "QZSS-2I", "IRNSS-1GEO"}; static const char* rtypes[] = {"AOAD/M_T        NONE", "LEIAR25.R4      LEIT", "TRM59800.00     SCIS"};
    if (r.Chance(0.1)) t += L("a comment inside of the antenna", "COMMENT");
    if (rec) { a.type = rtypes[r.Int(0, 2)]; switch (r.Int(0, 6)) { case 0: case 1: a.serial = ""; break; case 2: a.serial = "NONE"; break; case 3: a.serial = Fmt("%ld", r.Int(1, 99999999)); break; case 4: a.serial = Fmt("CR%ld", r.Int(1000, 999999)); break; case 5: a.serial = Fmt("%c%05ld", "GRECJI"[r.Int(0, 5)], r.Int(100, 99999)); break; default: a.serial = Fmt("%c%ld", "GRECJI"[r.Int(0, 5)], r.Int(1, 9)); } }
    else { a.type = types[r.Int(0, 6)]; a.serial = sats.size() && r.Chance(0.25) ? sats.back().serial : SatCode(r, a.index); if (sats.size() && a.serial == sats.back().serial) a.index = sats.back().index; }
    a.type = Pad(a.type, 20); a.serial = Pad(a.serial, 20); t += L(a.type + a.serial + Pad(rec ? "" : Fmt("%c%03ld", a.serial[0], r.Int(1, 999)), 10) + (rec ? "" : "2009-014A"), "TYPE / SERIAL NO"); t += L("                                             0    29-JAN-17", "METH / BY / # / DATE");
    double dazi = r.Chance(0.7) ? 0 : r.Pick<double>({5, 10, 30}); t += L(Fmt("  %6.1f", dazi), "DAZI"); a.z1 = r.Chance(0.8) ? 0 : r.Int(1, 5); a.dz = r.Chance(0.6) ? 1 : r.Pick<double>({5, 0.5, 2, 0.1, 0.2, 10}); a.nz = (size_t)r.Int(1, a.dz < 1 ? 60 : a.dz > 5 ? 8 : 18) + 1; a.z2 = Rnd(a.z1 + a.dz * (double)(a.nz - 1), 1); t += L(Fmt("  %6.1f%6.1f%6.1f", (double)a.z1, a.z2, a.dz), "ZEN1 / ZEN2 / DZEN");
    long nf = r.Int(1, 4); t += L(Fmt("%6ld", nf), "# OF FREQUENCIES"); auto date = [&](const When& w, const char* l) { t += L(Fmt("%6ld%6ld%6ld%6ld%6ld%13.7f", w.y, w.m, w.d, w.h, w.mi, w.s), l); }; if (!rec || r.Chance(0.2)) { a.from = RandWhen(r); date(a.from, "VALID FROM"); if (r.Chance(0.6)) { a.until = RandWhen(r); date(a.until, "VALID UNTIL"); } } if (r.Chance(0.7)) t += L("IGS14_2247", "SINEX CODE"); if (r.Chance(0.2)) t += L("END OF ANTENNA", "COMMENT");
    for (long k = 0; k < nf; k++) {
      Freq f; f.name = Fmt("%c%02ld", rec ? 'G' : a.serial[0], r.Int(1, 9)); t += L("   " + f.name, "START OF FREQUENCY"); for (double& x : f.off) x = Rnd(r.Chance(0.2) ? 0 : r.Uni(-3000, 3000), 2); t += L(Fmt("%10.2f%10.2f%10.2f", f.off[0], f.off[1], f.off[2]), "NORTH / EAST / UP");
      std::string row = "   NOAZI"; for (size_t z = 0; z < a.nz; z++) { f.pcv.push_back(Rnd(r.Uni(-99, 99), 2)); row += Fmt("%8.2f", f.pcv.back()); } t += row + "\n"; if (dazi > 0) for (double az = 0; az <= 360; az += dazi) { t += Fmt("%8.1f", az); for (size_t z = 0; z < a.nz; z++) t += Fmt("%8.2f", r.Uni(-99, 99)); t += "\n"; } t += L("   " + f.name, "END OF FREQUENCY"); a.f.push_back(f);
      if (r.Chance(0.1)) { t += L("   " + f.name, "START OF FREQ RMS") + L(Fmt("%10.2f%10.2f%10.2f", 1.0, 2.0, 3.0), "NORTH / EAST / UP") + row + "\n" + L("   " + f.name, "END OF FREQ RMS"); }
    }
    t += L("", "END OF ANTENNA"); a.end = t.size() - 7; if (!rec) { sats.push_back(a); o.blocks.push_back({begin, t.size()}); }
  }
  return o;
}
// every reported antenna is one of the file; the first `intact` of them are there
void JudgeAtx(Ctx& c, const AntexFileReader& R, const std::vector<Ant>& sats, size_t intact, bool closed, const std::string& w) {
  std::map<size_t, std::vector<const Ant*>> want; for (size_t i = 0; i < intact; i++) want[sats[i].index].push_back(&sats[i]); size_t n = R.GetNumberOfSatelliteData(); if (closed) c.Check(n == want.size(), "antenna-count", "%s: %zu satellites instead of %zu", w.c_str(), n, want.size());
  for (size_t k = 0; k < kTotalNumberOfGnssSatellite; k++) {
    std::vector<AntexSatelliteData> got; try { got = R.GetAntexSatelliteData(k); } catch (const std::exception&) {} auto it = want.find(k); size_t m = it == want.end() ? 0 : it->second.size(); std::string who = w + ", satellite " + ConvertIndexToGnssSatelliteNumber(k); c.Check(closed ? got.size() == m : got.size() >= m, "antenna-count", "%s: %zu antennas instead of %zu", who.c_str(), got.size(), m);
    for (size_t i = 0; i < m; i++) {
      auto& g = got[i]; auto& a = *it->second[i]; c.Check(g.GetAntennaType() == a.type && g.GetSerialNumber() == a.serial, "antenna", "%s: \"%s\" \"%s\" instead of \"%s\" \"%s\"", who.c_str(), g.GetAntennaType().c_str(), g.GetSerialNumber().c_str(), a.type.c_str(), a.serial.c_str());
      c.Check(Same(g.GetValidStartTime(), a.from) && Same(g.GetValidEndTime(), a.until), "validity", "%s: valid from %s to %s, expected %ld/%ld/%ld.. %ld/%ld/%ld..", who.c_str(), Show(g.GetValidStartTime()).c_str(), Show(g.GetValidEndTime()).c_str(), a.from.y, a.from.m, a.from.d, a.until.y, a.until.m, a.until.d); c.Check(g.GetNumberOfFrequency() == a.f.size(), "frequencies", "%s: %zu frequencies instead of %zu", who.c_str(), g.GetNumberOfFrequency(), a.f.size());
      for (size_t q = 0; q < a.f.size(); q++) {
        auto p = g.GetPhaseCenterData(q); auto& f = a.f[q]; auto grid = p.GetGridInformation(); std::string wf = who + " " + f.name; c.Check(p.GetFrequencyName() == f.name, "frequencies", "%s is called %s", wf.c_str(), p.GetFrequencyName().c_str()); for (int x = 0; x < 3; x++) c.Near(p.GetPhaseCenterOffset_mm()[x], f.off[x], 1e-9, "offset", wf + ": phase centre offset");
        c.Check(std::fabs(grid.GetZenithStartAngle_deg() - (double)a.z1) < 1e-9 && std::fabs(grid.GetZenithEndAngle_deg() - a.z2) < 1e-9 && std::fabs(grid.GetZenithStepAngle_deg() - a.dz) < 1e-9 && grid.GetNumberOfZenithGrid() == a.nz, "grid", "%s: grid %g %g %g with %zu points instead of %ld %g %g with %zu", wf.c_str(), grid.GetZenithStartAngle_deg(), grid.GetZenithEndAngle_deg(), grid.GetZenithStepAngle_deg(), grid.GetNumberOfZenithGrid(), a.z1, a.z2, a.dz, a.nz);
        auto M = p.GetPhaseCenterVariationMatrix_mm(); c.Check(M.size() == 1 && M[0].size() == a.nz, "variation", "%s: variations are %zu x %zu", wf.c_str(), M.size(), M.empty() ? 0 : M[0].size()); for (size_t z = 0; z < a.nz; z++) c.Near(M[0][z], f.pcv[z], 1e-9, "variation", wf + Fmt(": variation %zu", z));
        for (double u : {0.0, 0.13, 0.49, 0.51, 0.77, 1.0}) { double ang = (double)a.z1 + u * (a.z2 - (double)a.z1), x = (ang - (double)a.z1) / a.dz; long k2 = (long)grid.CalcClosestZenithIndex(ang); c.Check(k2 >= 0 && k2 < (long)a.nz && std::fabs((double)k2 - x) <= 0.5 + 1e-6, "closest", "%s: angle %g has index %ld", wf.c_str(), ang, k2); }
      }
      c.Probe("antennas");
    }
  }
}
// ---------------------------------------------------------------- Bias-SINEX
struct Bias { int id, unit, sig; std::string svn, prn, station; double v, sd, slope = 0, slope_sd = 0; size_t end; };
const char* kIds[] = {"DSB", "ISB", "OSB", "XSB"}; const char* kUnits[] = {"ns", "cyc", "m"}; const char* kSig[][2] = {{"C1W", "C2W"}, {"C1P", "C2P"}, {"C1P", "C1C"}, {"C2P", "C2C"}, {"C1X", "C5X"}, {"C1C", ""}};
File MakeBsx(Rng& r, long n, std::vector<Bias>& B) {
  File o; std::string& t = o.text; t += "%=BIA 1.00 GFZ 2023:092:50740 IGS 2023:091:00000 2023:091:86399 R 00003234\n*-----\n"; auto open = [&](const char* name, std::vector<std::string> body) { size_t b = t.size(); t += std::string("+") + name + "\n"; for (auto& x : body) t += x + "\n"; t += std::string("-") + name + "\n"; o.blocks.push_back({b, t.size()}); };
  if (r.Chance(0.7)) open("FILE/REFERENCE", {" DESCRIPTION        a simulated service", "*comment", " +BIAS/SOLUTION is described elsewhere"}); if (r.Chance(0.4)) open("FILE/COMMENT", {" anything -FILE/COMMENT", ""}); if (r.Chance(0.4)) open("INPUT/ACKNOWLEDGMENTS", {" AAA thanks"}); if (r.Chance(0.7)) open("BIAS/DESCRIPTION", {" OBSERVATION_SAMPLING                             300"}); if (r.Chance(0.4)) open("BIAS/RECEIVER_INFORMATION", {" ABCD G ---- 2016:296:00000 2016:297:00000 SEPT POLARX5"}); if (r.Chance(0.5)) t += "*-------\n";
  long parts = r.Chance(0.85) ? 1 : 2; for (long p = 0; p < parts; p++) {
    size_t b = t.size(); t += "+BIAS/SOLUTION\n*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ UNIT __ESTIMATED_VALUE____ _STD_DEV___\n";
    for (long i = 0; i < n; i++) {
      Bias x; x.id = r.Chance(0.9) ? (int)r.Int(0, 2) : 3; x.unit = r.Chance(0.8) ? 0 : (int)r.Int(1, 2); x.sig = (int)r.Int(0, 5); size_t ix; x.prn = r.Chance(0.9) ? SatCode(r, ix) : ""; x.svn = x.prn.empty() ? "" : Fmt("%c%03ld", x.prn[0], r.Int(1, 999)); x.station = r.Chance(0.5) ? "" : r.Pick<std::string>({"ABMF", "ZIM200CHE", "TSK2"});
      double v = r.Sign() * r.LogUni(1e-4, 1e3); std::string vt = r.Chance(0.5) ? Fmt("%21.14E", v) : Fmt("%21.4f", v), st = r.Chance(0.5) ? Fmt("%12.6E", r.LogUni(1e-6, 10)) : Fmt("%12.4f", r.Uni(0, 9)); x.v = std::strtod(vt.c_str(), nullptr); x.sd = std::strtod(st.c_str(), nullptr); std::string l = " " + Pad(kIds[x.id], 4) + " " + Pad(x.svn, 4) + " " + Pad(x.prn, 3) + " " + Pad(x.station, 9) + " " + Pad(kSig[x.sig][0], 4) + " " + Pad(kSig[x.sig][1], 4) + " 2023:091:00000 2023:091:86399 " + Pad(kUnits[x.unit], 4) + " " + vt + " " + st;
      if (r.Chance(0.2)) { std::string a = Fmt("%21.14E", r.Sign() * r.LogUni(1e-6, 1)), q = Fmt("%12.6E", r.LogUni(1e-6, 1)); l += " " + a; x.slope = std::strtod(a.c_str(), nullptr); if (r.Chance(0.7)) { l += " " + q; x.slope_sd = std::strtod(q.c_str(), nullptr); } } if (r.Chance(0.2)) l += Pad("", (size_t)r.Int(1, 5));
      t += l + "\n"; x.end = t.size(); B.push_back(x); if (r.Chance(0.03)) t += "* a comment\n";
    }
    t += "-BIAS/SOLUTION\n"; o.blocks.push_back({b, t.size()});
  }
  if (r.Chance(0.9)) t += "%=ENDBIA\n"; return o;
}
void JudgeBsx(Ctx& c, const BiasSinexFileReader& R, const std::vector<Bias>& B, size_t intact, bool closed, const std::string& w) {
  size_t n = R.GetNumberOfBiasData(); c.Check(closed ? n == intact : n >= intact, "bias-count", "%s: %zu biases instead of %zu", w.c_str(), n, intact);
  for (size_t i = 0; i < intact; i++) {
    auto g = R.GetBiasData(i); auto& b = B[i]; std::string who = w + Fmt(", bias %zu", i); BiasIdentifier id[] = {BiasIdentifier::kDsb, BiasIdentifier::kIsb, BiasIdentifier::kOsb, BiasIdentifier::kError}; BiasUnit un[] = {BiasUnit::kNs, BiasUnit::kCycle, BiasUnit::kError}; BiasTargetSignal sg[] = {BiasTargetSignal::kP1P2, BiasTargetSignal::kP1P2, BiasTargetSignal::kP1C1, BiasTargetSignal::kP2C2, BiasTargetSignal::kError, BiasTargetSignal::kError};
    c.Check(g.GetIdentifier() == id[b.id] && g.GetUnit() == un[b.unit] && g.GetTargetSignal() == sg[b.sig], "bias-kind", "%s: kind %d unit %d signal %d instead of %s %s %s-%s", who.c_str(), (int)g.GetIdentifier(), (int)g.GetUnit(), (int)g.GetTargetSignal(), kIds[b.id], kUnits[b.unit], kSig[b.sig][0], kSig[b.sig][1]); auto trim = [](std::string x) { while (!x.empty() && x.back() == ' ') x.pop_back(); return x; }; c.Check(trim(g.GetSatelliteSvnCode()) == b.svn && trim(g.GetStationName()) == b.station, "bias-target", "%s: satellite \"%s\" station \"%s\" instead of \"%s\" \"%s\"", who.c_str(), g.GetSatelliteSvnCode().c_str(), g.GetStationName().c_str(), b.svn.c_str(), b.station.c_str());
    auto near = [&](double got, double want, const char* k) { c.Near(got, want, 1e-12 * std::fabs(want), k, who); }; near(g.GetBias(), b.v, "bias"); near(g.GetBiasStandardDeviation(), b.sd, "bias-deviation"); near(g.GetSlope(), b.slope, "slope"); near(g.GetSlopeStandardDeviation(), b.slope_sd, "slope-deviation"); c.Probe("biases");
  }
}
// ---------------------------------------------------------------- SP3
struct Sp3Rec { std::string id; double p[3], clk; int sd[4]; bool has_sd, ev, cp, mv, op; };
struct Sp3 { When start; long week, accuracy; double sow, interval; bool vel; std::string data, coord, agency; int orbit; std::vector<std::string> ids; std::vector<When> ep; std::vector<std::vector<Sp3Rec>> rec; std::vector<size_t> end; double bp, bc; };
File MakeSp3(Rng& r, long ne, Sp3& S) {
  File o; std::string& t = o.text; S.interval = r.Pick<double>({30, 300, 900, 900, 1800}); S.vel = r.Chance(0.3); S.start = RandWhen(r); S.start.y = std::max(1990L, std::min(2050L, S.start.y)); S.start.s = 0; S.data = "ORBIT"; S.coord = r.Pick<std::string>({"WGS84", "IGS14", "IGS20"}); S.orbit = (int)r.Int(0, 4); const char* ot[] = {"FIT", "EXT", "BCT", "HLM", "UNK"}; S.agency = r.Pick<std::string>({"MGEX", " IGS", "JAXA"}); long ns = r.Chance(0.3) ? r.Int(17, 60) : r.Int(1, 20);
  s2e::time_system::EpochTime e0(DateTime((size_t)S.start.y, (size_t)S.start.m, (size_t)S.start.d, (size_t)S.start.h, (size_t)S.start.mi, 0.0)); int64_t rel = (int64_t)e0.GetTime_s() - 315964800; S.week = (long)(rel / 604800); S.sow = (double)(rel % 604800); std::string no = "\n";
  std::map<std::string, bool> used; while ((long)S.ids.size() < ns) { size_t ix; std::string id = SatCode(r, ix); if (!used[id]) { used[id] = true; S.ids.push_back(id); } }
  auto date = [&](const When& w) { return Fmt("%4ld %2ld %2ld %2ld %2ld %11.8f", w.y, w.m, w.d, w.h, w.mi, w.s); }; t += Fmt("#d%c", S.vel ? 'V' : 'P') + date(S.start) + Fmt(" %7ld ", ne) + S.data + " " + S.coord + " " + ot[S.orbit] + " " + S.agency + "\n"; t += Fmt("## %4ld %15.8f %14.8f %5ld %15.13f\n", S.week, S.sow, S.interval, 44244 + (long)(rel / 86400), (double)(rel % 86400) / 86400);
  long rows = std::max(5L, (ns + 16) / 17); for (long l = 0; l < rows; l++) { t += l == 0 ? Fmt("+  %3ld   ", ns) : "+        "; for (long k = 0; k < 17; k++) t += l * 17 + k < ns ? S.ids[(size_t)(l * 17 + k)] : "  0"; t += "\n"; } for (long l = 0; l < rows; l++) { t += "++       "; for (long k = 0; k < 17; k++) t += Fmt("%3ld", l * 17 + k < ns ? r.Int(0, 120) : 0L); t += "\n"; }
  t += "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"; S.bp = 1.25; S.bc = 1.025; t += "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n"; for (long k = r.Int(1, 5); k > 0; k--) t += "/* a comment\n";
  size_t head = 0; for (long e = 0; e < ne; e++) {
    EpochTime te((uint64_t)((int64_t)e0.GetTime_s() + (int64_t)(S.interval * (double)e)), 0); DateTime d(te); When w; w.y = (long)d.GetYear(); w.m = (long)d.GetMonth(); w.d = (long)d.GetDay(); w.h = (long)d.GetHour(); w.mi = (long)d.GetMinute(); w.s = d.GetSecond(); S.ep.push_back(w); t += "*  " + date(w) + "\n"; S.rec.push_back({}); bool corr = r.Chance(0.3);
    for (long k = 0; k < ns; k++) {
      Sp3Rec x; x.id = S.ids[(size_t)k]; bool bad = r.Chance(0.05); for (double& p : x.p) p = bad ? 0 : Rnd(r.Uni(-42000, 42000), 6); x.clk = bad || r.Chance(0.05) ? 999999.999999 : Rnd(r.Uni(-900, 900), 6); x.has_sd = r.Chance(0.5); x.ev = x.cp = x.mv = x.op = false; for (int& q : x.sd) q = 0; std::string l = "P" + x.id + Fmt("%14.6f%14.6f%14.6f%14.6f", x.p[0], x.p[1], x.p[2], x.clk);
      if (x.has_sd) { for (int i = 0; i < 3; i++) { if (r.Chance(0.9)) x.sd[i] = (int)r.Int(1, 99); } if (r.Chance(0.9)) x.sd[3] = (int)r.Int(1, 999); auto num = [](int v, int n2) { return v ? Fmt("%*d", n2, v) : std::string((size_t)n2, ' '); }; l += " " + num(x.sd[0], 2) + " " + num(x.sd[1], 2) + " " + num(x.sd[2], 2) + " " + num(x.sd[3], 3); if (r.Chance(0.7)) { x.ev = r.Chance(0.3); x.cp = r.Chance(0.3); x.mv = r.Chance(0.3); x.op = r.Chance(0.3); l += std::string(" ") + (x.ev ? "E" : " ") + (x.cp ? "P" : " ") + "  " + (x.mv ? "M" : " ") + (x.op ? "P" : " "); } }
      t += l + "\n"; if (corr && r.Chance(0.8)) t += "EP   55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000\n"; if (S.vel) { t += "V" + x.id + Fmt("%14.6f%14.6f%14.6f%14.6f", r.Uni(-4e4, 4e4), r.Uni(-4e4, 4e4), r.Uni(-4e4, 4e4), r.Uni(-10, 10)) + "\n"; if (corr && r.Chance(0.5)) t += "EV   22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567\n"; } S.rec.back().push_back(x);
    }
    S.end.push_back(t.size()); (void)head; }
  t += "EOF\n"; return o;
}
void JudgeSp3(Ctx& c, Sp3FileReader& R, const Sp3& S, size_t intact, bool whole, const std::string& w) {
  size_t n = R.GetNumberOfEpoch(); c.Check(n >= intact && (!whole || n <= std::min(intact + 1, S.ep.size())), "epoch-count", "%s: %zu epochs instead of %zu", w.c_str(), n, intact); if (n == 0) { size_t k = R.SearchNearestEpochId(EpochTime(1000000000, 0.0)); c.Check(k == 0, "nearest", "%s: epoch %zu of none is the nearest", w.c_str(), k); } if (!intact) return; if (whole) intact = std::min(n, S.ep.size()); Sp3Header h = R.GetHeader();
  c.Check(h.mode_ == (S.vel ? Sp3Mode::kVelocity : Sp3Mode::kPosition) && Same(h.start_epoch_, S.start) && h.used_data_ == S.data && h.coordinate_system_ == S.coord && h.agency_name_ == S.agency && (int)h.orbit_type_ == S.orbit && h.satellite_ids_ == S.ids && R.GetNumberOfSatellites() == S.ids.size() && h.time_system_ == "GPS" && h.file_type_ == "M ", "header", "%s: the header differs", w.c_str()); c.Near(h.epoch_interval_s_, S.interval, 1e-9, "header", w + ": interval"); c.Near((double)h.start_gps_time_.GetWeek() * 604800 + h.start_gps_time_.GetElapsedTimeFromWeek_s(), (double)S.week * 604800 + S.sow, 1e-6, "header", w + ": start in GPS time"); c.Near(h.base_number_position_ + h.base_number_clock_, S.bp + S.bc, 1e-9, "header", w + ": bases");
  for (size_t e = 0; e < intact; e++) {
    c.Check(Same(R.GetEpochData(e), S.ep[e]), "epoch-time", "%s: epoch %zu is %s", w.c_str(), e, Show(R.GetEpochData(e)).c_str());
    for (size_t k = 0; k < S.ids.size(); k++) { auto g = R.GetPositionClock(e, k); auto& x = S.rec[e][k]; std::string who = w + Fmt(", epoch %zu of ", e) + x.id; c.Check(g.satellite_id_ == x.id, "record", "%s is called %s", who.c_str(), g.satellite_id_.c_str()); auto p = R.GetSatellitePosition_km(e, k); for (int i = 0; i < 3; i++) { c.Near(p[i], x.p[i], 1e-9, "position", who); c.Near(g.position_standard_deviation_[i], x.sd[i], 1e-9, "deviation", who + Fmt(": deviation %d", i)); } c.Near(R.GetSatelliteClockOffset(e, k), x.clk, 1e-9, "clock", who); c.Near(g.clock_standard_deviation_, x.sd[3], 1e-9, "deviation", who + ": clock deviation"); c.Check(g.clock_event_flag_ == x.ev && g.clock_prediction_flag_ == x.cp && g.maneuver_flag_ == x.mv && g.orbit_prediction_flag_ == x.op, "flags", "%s: flags %d%d%d%d instead of %d%d%d%d", who.c_str(), g.clock_event_flag_, g.clock_prediction_flag_, g.maneuver_flag_, g.orbit_prediction_flag_, x.ev, x.cp, x.mv, x.op); c.Probe("orbit records"); }
  }
  if (whole) { auto none = R.GetPositionClock(n, 0), none2 = R.GetPositionClock(0, S.ids.size()); c.Check(none.position_km_[0] == 0 && none.clock_us_ > 999999 && none2.position_km_[0] == 0 && none2.clock_us_ > 999999, "absent", "%s: data behind the end of the file", w.c_str());
    EpochTime e0(R.GetEpochData(0)); for (double u : {-1000.0, 0.0, 0.2, 0.48, 0.52, 1.47, 1.53, 2.499, 2.501, 5.48, 5.52, 1e6}) { double dt = u * S.interval, a = (double)e0.GetTime_s() + dt; if (a < 0) continue; size_t k = R.SearchNearestEpochId(EpochTime((uint64_t)a, a - std::floor(a))); double ideal = std::max(0.0, std::min((double)(n - 1), u)); c.Check(k < n && std::fabs((double)k - ideal) <= 0.5 + 1e-6, "nearest", "%s: the epoch nearest to %g intervals is %zu of %zu", w.c_str(), u, k, n); } }
}
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; s.p["geo"] = (double)r.Int(1, 1000000000); s.p["kind"] = (double)r.Int(0, 2); s.p["n"] = (double)(r.Chance(0.1) ? r.Int(0, 1) : r.Int(1, thorough ? 40 : 12)); s.p["receivers"] = r.Chance(0.5); s.p["crlf"] = r.Chance(0.1);
  if (r.Chance(0.6)) for (long k = r.Int(1, 2); k > 0; k--) { double at = r.Uni(), w = (double)r.Int(1, 1000000000); switch (r.Int(0, 12)) { case 10: s.Add(0, "word", {at, w}); break; case 11: case 12: s.Add(0, "datum", {at, w}); break; case 0: case 1: case 2: s.Add(0, "cut", {at, w}); break; case 3: s.Add(0, "cutline", {at, w}); break; case 4: s.Add(0, "lost", {at, w}); break; case 5: s.Add(0, "zero", {at, w}); break; case 6: s.Add(0, "again", {at, w}); break; case 7: s.Add(0, "noise", {at, w}); break; case 8: s.Add(0, "noline", {at, w}); break; default: s.Add(0, "missing", {at, w}); } }
  if (r.Chance(0.3)) s.Add(1, "eio", {r.Uni()}); if (r.Chance(0.3)) s.Add(1, "slow", {(double)r.Int(1, 700)}); if (r.Chance(0.05)) s.Add(1, "refused", {}); return s;
}
__attribute__((noinline)) void Dirty(int v) { volatile char b[60000]; memset((void*)b, v, sizeof b); }
void Run(const Script& s, Ctx& c) {
  Rng r((uint64_t)s.P("geo", 1)); int kind = (int)s.L("kind"); long n = std::max(0L, std::min(60L, s.L("n", 1))); std::vector<Ant> sats; std::vector<Bias> bias; Sp3 sp; File f = kind == 0 ? MakeAtx(r, n, sats, s.P("receivers") > 0) : kind == 1 ? MakeBsx(r, 3 * n, bias) : MakeSp3(r, std::max(1L, n), sp); const char* names[] = {"antenna", "bias", "orbit"}; std::string path = Fmt("products/%s.dat", names[kind]);
  // identity of names and indices of satellites
  for (size_t k = 0; k < kTotalNumberOfGnssSatellite; k++) { std::string id = ConvertIndexToGnssSatelliteNumber(k); c.Check(id.size() == 3 && ConvertGnssSatelliteNumberToIndex(id) == k, "name", "satellite %zu is called %s, which is satellite %zu", k, id.c_str(), ConvertGnssSatelliteNumberToIndex(id)); } { size_t ix; std::string id = SatCode(r, ix); c.Check(ConvertIndexToGnssSatelliteNumber(ix) == id && ConvertGnssSatelliteNumberToIndex(id) == ix, "name", "satellite %s", id.c_str()); }
  std::string t = f.text; size_t safe = t.size(); bool whole = true, cut = false, missing = false;
  for (auto& e : s.ev) {
    size_t at = std::min(t.size(), (size_t)(e.A(0) * (double)(t.size() + 1))); Rng q((uint64_t)e.I(1)); size_t len = (size_t)q.Int(1, 600); if (e.t != 0) continue; bool first = whole; std::string before = t; size_t safe_before = safe;
    if (e.kind == "cut") { t.resize(at); safe = std::min(safe, at); } else if (e.kind == "cutline") { size_t p = t.rfind('\n', at ? at - 1 : 0); at = p == std::string::npos ? 0 : p + 1; t.resize(at); safe = std::min(safe, at); }
    else if (e.kind == "lost") { t.erase(at, len); safe = std::min(safe, at); } else if (e.kind == "zero") { for (size_t i = at; i < std::min(t.size(), at + len); i++) t[i] = 0; safe = std::min(safe, at); } else if (e.kind == "again") { t.insert(at, t.substr(at > len ? at - len : 0, len)); safe = std::min(safe, at); }
    else if (e.kind == "noise") { for (size_t i = 0; i < (size_t)q.Int(1, 20) && !t.empty(); i++) { size_t p = std::min(t.size() - 1, at + (size_t)q.Int(0, 100)); t[p] = (char)(q.Chance(0.5) ? q.Int(32, 126) : q.Int(0, 255)); } safe = std::min(safe, at); } else if (e.kind == "noline") { size_t b = at ? t.rfind('\n', at - 1) : std::string::npos; b = b == std::string::npos ? 0 : b + 1; size_t x = t.find('\n', b); t.erase(b, x == std::string::npos ? std::string::npos : x + 1 - b); safe = std::min(safe, b); } else if (e.kind == "word" || e.kind == "datum") {  // a word, or the beginning of a line with dates or grids, becomes illegible
      size_t p = at; if (e.kind == "datum") { std::vector<size_t> v; for (size_t b = 0; b < t.size();) { size_t x = t.find('\n', b); x = x == std::string::npos ? t.size() : x; std::string l = t.substr(b, x - b); if (l.find("VALID ") == 60 || l.find("ZEN1") == 60 || l.compare(0, 2, "* ") == 0 || l.compare(0, 1, "#") == 0) v.push_back(b + (l[0] == '*' || l[0] == '#' ? 3 : 0)); b = x + 1; } if (v.empty()) continue; p = v[std::min(v.size() - 1, (size_t)(e.A(0) * (double)v.size()))]; for (long k = q.Int(0, 4); k > 0; k--) { while (p < t.size() && t[p] == ' ') p++; while (p < t.size() && t[p] != ' ' && t[p] != '\n') p++; } }
      while (p < t.size() && (t[p] == ' ' || t[p] == '\n')) p++; safe = std::min(safe, p); char z = q.Pick<char>({'x', ' ', '-', '.'}); for (; p < t.size() && t[p] != ' ' && t[p] != '\n'; p++) t[p] = z; }
    else if (e.kind == "missing") { missing = true; }
    if (t == before) safe = safe_before; if (t != before || missing) { whole = false; cut = first && (e.kind == "cut" || e.kind == "cutline"); c.Count("file damaged: " + e.kind); } }
  bool refused = false, io = false; size_t eio_at = 0, slow = 0; for (auto& e : s.ev) if (e.t == 1) { if (e.kind == "refused") refused = true; if (e.kind == "eio") { io = true; eio_at = (size_t)(e.A(0) * (double)t.size()); } if (e.kind == "slow") slow = (size_t)std::max(1L, e.I(0)); }
  bool crlf = s.P("crlf") > 0 && whole && kind == 1; std::string stored = t; if (crlf) { stored.clear(); for (char ch : t) { if (ch == '\n') stored += '\r'; stored += ch; } c.Count("carriage returns"); }
  if (!missing) WriteFile(path, stored); bool failed = false; g_disk.active = true; g_disk.fate = [&](const DiskOp& op) { DiskFate ft; if (op.kind == DiskOp::kOpenRead) { if (refused) { ft.err = EACCES; c.Count("open refused"); } } if (op.kind == DiskOp::kRead) { size_t pos = (size_t)op.index; if (io && pos >= eio_at) { ft.err = EIO; failed = true; c.Count("read error"); return ft; } size_t m = op.size; if (slow) { m = std::min(m, slow); } if (io) m = std::min(m, eio_at - pos); if (m < op.size) { ft.accept = m; if (slow) c.Count("short reads"); } } return ft; };
  // what must be there
  size_t limit = safe; auto intact = [&](auto& v) { size_t k = 0; while (k < v.size() && v[k].end <= limit) k++; return k; }; auto opened = [&](size_t at) { for (auto& b : f.blocks) if (at > f.text.find('\n', b.first) && at <= f.text.rfind('\n', b.second - 2)) return true; return false; };
  std::string w = Fmt("%s product of %zu bytes", names[kind], t.size()) + (whole ? "" : Fmt(", damaged from byte %zu", safe)); std::string seen[2]; bool threw[2] = {false, false};
  for (int pass = 0; pass < 2; pass++) {
    Dirty(pass ? 0x5a : 0); std::string& d = seen[pass]; failed = false; size_t lim0 = limit;
    try {
      if (kind == 0) {
        AntexFileReader R(path); bool ok = R.GetFileReadSuccessFlag(); g_disk.active = false; if (failed) limit = std::min(limit, eio_at > 7 ? eio_at - 7 : 0); bool absent = missing || refused; c.Check(!absent || !ok, "flag", "%s: no file, but read successfully", w.c_str()); if (absent) limit = 0; bool clean = whole && !failed && !absent; c.Check(!clean || ok, "flag", "%s: the intact file is reported as unreadable", w.c_str()); if (failed || (cut && opened(t.size()))) c.Check(!ok, "flag", "%s: %s, but read successfully; the end is \"%s\"", w.c_str(), failed ? "the disk failed" : "an antenna is cut off", t.substr(t.size() > 200 ? t.size() - 200 : 0).c_str());
        JudgeAtx(c, R, sats, intact(sats), absent || whole || cut, w); d = Fmt("%d %zu", (int)ok, R.GetNumberOfSatelliteData()); for (size_t k = 0; k < kTotalNumberOfGnssSatellite; k++) { std::vector<AntexSatelliteData> v; try { v = R.GetAntexSatelliteData(k); } catch (const std::exception&) {} for (auto& a : v) { d += a.GetAntennaType() + a.GetSerialNumber() + Show(a.GetValidStartTime()) + Show(a.GetValidEndTime()); size_t nf = std::min<size_t>(100, a.GetNumberOfFrequency()); for (size_t q = 0; q < nf; q++) { try { auto p = a.GetPhaseCenterData(q); auto M = p.GetPhaseCenterVariationMatrix_mm(); d += p.GetFrequencyName() + Fmt("%g %g %zu;", p.GetPhaseCenterOffset_mm()[0], p.GetGridInformation().GetZenithEndAngle_deg(), M.size()); for (auto& row : M) for (double x : row) d += Fmt("%g,", x); } catch (const std::exception&) { d += "none"; } } } }
      } else if (kind == 1) {
        BiasSinexFileReader R(path); bool ok = R.GetFileReadSuccessFlag(); g_disk.active = false; if (failed) limit = std::min(limit, eio_at); bool absent = missing || refused; c.Check(!absent || !ok, "flag", "%s: no file, but read successfully", w.c_str()); if (absent) limit = 0; bool clean = whole && !failed && !absent; c.Check(!clean || ok, "flag", "%s: the intact file is reported as unreadable", w.c_str()); if (failed || (cut && opened(t.size()))) c.Check(!ok, "flag", "%s: %s, but read successfully; the end is \"%s\"", w.c_str(), failed ? "the disk failed" : "a block is cut off", t.substr(t.size() > 200 ? t.size() - 200 : 0).c_str());
        if (crlf && failed) limit = 0; JudgeBsx(c, R, bias, intact(bias), absent || ((whole || cut) && !(crlf && failed)), w); d = Fmt("%d", (int)ok); try { auto none = R.GetBiasData(R.GetNumberOfBiasData() + (size_t)s.L("n")); d += none.GetStationName() + Fmt("%.17g", none.GetBias()); c.Check(none.GetBias() == 0, "absent", "%s: a bias of %g behind the last one", w.c_str(), none.GetBias()); } catch (const std::out_of_range&) {} for (size_t i = 0; i < R.GetNumberOfBiasData(); i++) { auto b = R.GetBiasData(i); d += b.GetSatelliteSvnCode() + b.GetStationName() + Fmt("%d %d %d %.17g %.17g %.17g %.17g;", (int)b.GetIdentifier(), (int)b.GetUnit(), (int)b.GetTargetSignal(), b.GetBias(), b.GetBiasStandardDeviation(), b.GetSlope(), b.GetSlopeStandardDeviation()); }
      } else {
        Sp3FileReader R(path); g_disk.active = false; if (failed) limit = std::min(limit, eio_at); if (missing || refused) limit = 0; size_t k = 0; while (k < sp.end.size() && sp.end[k] <= limit) k++; JudgeSp3(c, R, sp, k, (whole || cut) && k > 0, w); d = Fmt("%zu %zu", R.GetNumberOfEpoch(), R.GetNumberOfSatellites()); for (size_t e = 0; e < std::min<size_t>(50, R.GetNumberOfEpoch()); e++) { d += Show(R.GetEpochData(e)); for (size_t q = 0; q < std::min<size_t>(80, R.GetNumberOfSatellites()); q++) { auto p = R.GetPositionClock(e, q); d += Fmt("%.12g %.12g;", p.position_km_[0], p.clock_us_); } }
      }
    } catch (const std::exception& x) { g_disk.active = false; threw[pass] = true; d = "exception"; c.Probe("refused with an exception"); c.Check(!(whole && !failed), "intact", "%s: %s", w.c_str(), x.what()); }
    g_disk.active = true; limit = lim0; c.Hist(d);
  }
  g_disk.active = false; c.Check(seen[0] == seen[1], "garbage", "%s is read differently depending on the contents of the memory", w.c_str()); c.nontrivial = true; c.sim_time_s = 1; size_t blk = 0; for (auto& b : f.blocks) if (safe > b.first) blk++; c.State(Fmt("%d %s blk%zu off%zu %d%d%d", kind, s.ev.empty() ? "intact" : s.ev[0].kind.c_str(), std::min<size_t>(blk, 6), safe % 90, io, slow > 0, threw[0]));
}
Registrar reg{[] { Property p; p.id = "G03"; p.generate = Gen; p.execute = Run; p.quick_runs = 24000; p.thorough_runs = 800000; p.cpu_limit_s = 8; p.states_measure = "distinct (product, first damage, block and column of the damage, disk behaviour, outcome)"; p.simple = {{"n", 1}, {"receivers", 0}, {"crlf", 0}};
  p.real = "ANTEX, Bias-SINEX and SP3 readers, satellite numbering"; p.stub = "product files are synthetic; the disk below the file streams is simulated"; p.level_note = "satellites within the numbering of the library; azimuth-dependent variations are not read by the library"; return p; }()};
}  // namespace
