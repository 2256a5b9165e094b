// Analytic stand-ins for the two external libraries that are not present offline.
// Every value is a pure function of its arguments: no state, no I/O.
#include "SpiceUsr.h"
extern "C" {
#include "nrlmsise-00.h"
}
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

namespace {
struct Body { int id; const char* name; int parent; double a_km, e, inc, raan, argp, m0, period_s, gm, r[3]; };
const double kD = 86400.0, kDeg = M_PI / 180.0;
// parent 0 = solar system barycentre; angles in degrees w.r.t. the ecliptic
const Body kBodies[] = {
    {0, "SOLAR_SYSTEM_BARYCENTER", -1, 0, 0, 0, 0, 0, 0, 1, 0, {1, 1, 1}},
    {10, "SUN", 0, 7.0e5, 0.0, 1.3, 100, 0, 40, 4332.6 * kD, 132712440041.0, {696000, 696000, 696000}},
    {199, "MERCURY", 10, 57.909e6, 0.2056, 7.0, 48.3, 29.1, 174.8, 87.969 * kD, 22031.78, {2439.7, 2439.7, 2439.7}},
    {299, "VENUS", 10, 108.209e6, 0.0068, 3.39, 76.7, 54.9, 50.4, 224.701 * kD, 324858.59, {6051.8, 6051.8, 6051.8}},
    {399, "EARTH", 10, 149.598e6, 0.0167, 0.0, 0.0, 102.9, 357.5, 365.256 * kD, 398600.435436, {6378.1366, 6378.1366, 6356.7519}},
    {301, "MOON", 399, 384400, 0.0549, 5.145, 125.1, 318.2, 135.3, 27.3217 * kD, 4902.800066, {1737.4, 1737.4, 1737.4}},
    {499, "MARS", 10, 227.939e6, 0.0934, 1.85, 49.6, 286.5, 19.4, 686.98 * kD, 42828.375214, {3396.19, 3396.19, 3376.20}},
    {4, "MARS_BARYCENTER", 10, 227.939e6, 0.0934, 1.85, 49.6, 286.5, 19.4, 686.98 * kD, 42828.375214, {3396.19, 3396.19, 3376.20}},
    {599, "JUPITER", 10, 778.479e6, 0.0489, 1.3, 100.5, 273.9, 20.0, 4332.6 * kD, 126686534.92, {71492, 71492, 66854}},
    {5, "JUPITER_BARYCENTER", 10, 778.479e6, 0.0489, 1.3, 100.5, 273.9, 20.0, 4332.6 * kD, 126712764.8, {71492, 71492, 66854}},
    {699, "SATURN", 10, 1432.0e6, 0.0565, 2.48, 113.7, 339.4, 317.0, 10759.2 * kD, 37931206.2, {60268, 60268, 54364}},
    {6, "SATURN_BARYCENTER", 10, 1432.0e6, 0.0565, 2.48, 113.7, 339.4, 317.0, 10759.2 * kD, 37940585.2, {60268, 60268, 54364}},
    {799, "URANUS", 10, 2867.0e6, 0.0457, 0.77, 74.0, 97.0, 142.2, 30688.5 * kD, 5793951.3, {25559, 25559, 24973}},
    {7, "URANUS_BARYCENTER", 10, 2867.0e6, 0.0457, 0.77, 74.0, 97.0, 142.2, 30688.5 * kD, 5794548.6, {25559, 25559, 24973}},
    {899, "NEPTUNE", 10, 4515.0e6, 0.0113, 1.77, 131.8, 273.2, 256.2, 60182.0 * kD, 6835099.97, {24764, 24764, 24341}},
    {8, "NEPTUNE_BARYCENTER", 10, 4515.0e6, 0.0113, 1.77, 131.8, 273.2, 256.2, 60182.0 * kD, 6836527.1, {24764, 24764, 24341}},
    {999, "PLUTO", 10, 5906.4e6, 0.2488, 17.16, 110.3, 113.8, 14.5, 90560.0 * kD, 872.4, {1195, 1195, 1195}},
    {9, "PLUTO_BARYCENTER", 10, 5906.4e6, 0.2488, 17.16, 110.3, 113.8, 14.5, 90560.0 * kD, 977.0, {1195, 1195, 1195}},
};
const Body* ById(int id) { for (auto& b : kBodies) if (b.id == id) return &b; return nullptr; }
const Body* ByName(const char* n) {
  std::string s; for (const char* p = n; *p; ++p) s += (char)toupper(*p);
  for (auto& b : kBodies) if (s == b.name) return &b;
  return nullptr;
}
void Add(const Body* b, double et, double s[6]) {  // J2000 equatorial state w.r.t. SSB
  while (b && b->parent >= 0) {
    double n = 2 * M_PI / b->period_s, M = std::fmod(b->m0 * kDeg + n * et, 2 * M_PI), E = M;
    for (int i = 0; i < 30; i++) E -= (E - b->e * std::sin(E) - M) / (1 - b->e * std::cos(E));
    double q = std::sqrt(1 - b->e * b->e), cE = std::cos(E), sE = std::sin(E), r = 1 - b->e * cE;
    double p[2] = {b->a_km * (cE - b->e), b->a_km * q * sE}, v[2] = {-b->a_km * n * sE / r, b->a_km * n * q * cE / r};
    double cw = std::cos(b->argp * kDeg), sw = std::sin(b->argp * kDeg), cO = std::cos(b->raan * kDeg), sO = std::sin(b->raan * kDeg),
           ci = std::cos(b->inc * kDeg), si = std::sin(b->inc * kDeg);
    double P[3] = {cw * cO - sw * ci * sO, cw * sO + sw * ci * cO, sw * si}, Q[3] = {-sw * cO - cw * ci * sO, -sw * sO + cw * ci * cO, cw * si};
    double ce = std::cos(23.4392911 * kDeg), se = std::sin(23.4392911 * kDeg);
    for (int k = 0; k < 2; k++) {
      double a = k ? v[0] : p[0], c = k ? v[1] : p[1], x = a * P[0] + c * Q[0], y = a * P[1] + c * Q[1], z = a * P[2] + c * Q[2];
      s[3 * k] += x; s[3 * k + 1] += ce * y - se * z; s[3 * k + 2] += se * y + ce * z;
    }
    b = ById(b->parent);
  }
}
[[noreturn]] void Die(const char* what) { fprintf(stderr, "SPICE(stub) error: %s\n", what); exit(1); }
}  // namespace

extern "C" {
void furnsh_c(ConstSpiceChar*) {}
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found) {
  const Body* b = ByName(name); *found = b ? SPICETRUE : SPICEFALSE; if (b) *code = b->id;
}
void bodc2n_c(SpiceInt code, SpiceInt lenout, SpiceChar* name, SpiceBoolean* found) {
  const Body* b = ById(code); *found = b ? SPICETRUE : SPICEFALSE; if (b) snprintf(name, lenout, "%s", b->name);
}
void bodvcd_c(SpiceInt body, ConstSpiceChar* item, SpiceInt, SpiceInt* dim, SpiceDouble* values) {
  const Body* b = ById(body); if (!b) Die("bodvcd_c");
  if (!strcmp(item, "GM")) { *dim = 1; values[0] = b->gm; } else { *dim = 3; for (int i = 0; i < 3; i++) values[i] = b->r[i]; }
}
void spkezr_c(ConstSpiceChar* targ, SpiceDouble et, ConstSpiceChar*, ConstSpiceChar*, ConstSpiceChar* obs, SpiceDouble s[6], SpiceDouble* lt) {
  const Body *t = ByName(targ), *o = ByName(obs); if (!t || !o) Die("spkezr_c");
  double a[6] = {0}, b[6] = {0}; if (t != o) { Add(t, et, a); Add(o, et, b); }
  for (int i = 0; i < 6; i++) s[i] = a[i] - b[i];
  *lt = std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]) / 299792.458;
}
void str2et_c(ConstSpiceChar* str, SpiceDouble* et) {
  double jd = 0; if (sscanf(str, "jd %lf", &jd) != 1) Die("str2et_c"); *et = (jd - 2451545.0) * 86400.0 + 69.184;
}
void sxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble et, SpiceDouble x[6][6]) {
  memset(x, 0, sizeof(double) * 36); double w = 2 * M_PI / (27.3217 * 86400.0), a = 0.3 + w * et, c = std::cos(a), s = std::sin(a), t = 1.5 * kDeg;
  double R[3][3] = {{c, s * std::cos(t), s * std::sin(t)}, {-s, c * std::cos(t), c * std::sin(t)}, {0, -std::sin(t), std::cos(t)}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x[i][j] = x[i + 3][j + 3] = R[i][j];
}
void gtd7(struct nrlmsise_input* in, struct nrlmsise_flags*, struct nrlmsise_output* out) {
  double base = 3.6e-10 * std::exp(-(in->alt - 200.0) / 60.0) * (1 + 0.2 * std::cos((in->lst - 14.0) / 12.0 * M_PI)) *
                (1 + (in->f107A - 150.0) / 500.0 + (in->f107 - 150.0) / 1000.0) * (1 + in->ap / 400.0) * (1 + 0.05 * std::sin(in->g_lat * kDeg)) * (1 + 0.03 * std::cos(2 * M_PI * in->doy / 365));
  for (double& d : out->d) d = base; out->t[0] = out->t[1] = 1000;
}
}
