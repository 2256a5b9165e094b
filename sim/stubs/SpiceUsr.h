/* Simulator stand-in for CSPICE: analytic ephemeris, same signatures. */
#ifndef SIM_SPICEUSR_H
#define SIM_SPICEUSR_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int SpiceInt;
typedef double SpiceDouble;
typedef int SpiceBoolean;
typedef char SpiceChar;
typedef const char ConstSpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
void furnsh_c(ConstSpiceChar *file);
void bodn2c_c(ConstSpiceChar *name, SpiceInt *code, SpiceBoolean *found);
void bodc2n_c(SpiceInt code, SpiceInt lenout, SpiceChar *name, SpiceBoolean *found);
void bodvcd_c(SpiceInt body, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values);
void spkezr_c(ConstSpiceChar *targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, ConstSpiceChar *obs, SpiceDouble starg[6],
              SpiceDouble *lt);
void str2et_c(ConstSpiceChar *str, SpiceDouble *et);
void sxform_c(ConstSpiceChar *from, ConstSpiceChar *to, SpiceDouble et, SpiceDouble xform[6][6]);
#ifdef __cplusplus
}
#endif
#endif
