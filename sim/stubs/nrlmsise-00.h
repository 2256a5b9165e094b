/* Simulator stand-in for NRLMSISE-00: exponential density with solar-activity scaling. */
#ifndef SIM_NRLMSISE00_H
#define SIM_NRLMSISE00_H
struct nrlmsise_flags { int switches[24]; double sw[24]; double swc[24]; };
struct ap_array { double a[7]; };
struct nrlmsise_input { int year; int doy; double sec; double alt; double g_lat; double g_long; double lst; double f107A; double f107; double ap; struct ap_array *ap_a; };
struct nrlmsise_output { double d[9]; double t[2]; };
void gtd7(struct nrlmsise_input *input, struct nrlmsise_flags *flags, struct nrlmsise_output *output);
#endif
