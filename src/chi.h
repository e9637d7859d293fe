/* goodness of fit with a bound that a correct generator practically never exceeds */
#ifndef chi_h
#define chi_h
#include "vf.h"
/* returns 1 if counts fit the weights. more than 9 standard deviations above the expectation is no coincidence.
   cells with a small expectation are merged */
static inline int chi_fits(const uint64_t* counts, const double* weights, size_t n, double* out_z) {
  double total = 0, wsum = 0, chi = 0; size_t df = 0; double rest_e = 0, rest_o = 0;
  for (size_t i = 0; i < n; i++) { total += (double)counts[i]; wsum += weights ? weights[i] : 1; }
  for (size_t i = 0; i < n; i++) {
    double e = total * (weights ? weights[i] : 1) / wsum, o = (double)counts[i];
    if (e == 0 && o > 0) { *out_z = INFINITY; return 0; }
    if (e < 20) { rest_e += e; rest_o += o; continue; }
    chi += (o - e) * (o - e) / e; df++;
  }
  if (rest_e >= 20) { chi += (rest_o - rest_e) * (rest_o - rest_e) / rest_e; df++; }
  if (df < 2) { *out_z = 0; return 1; }
  df--;
  /* wilson-hilferty */
  double k = (double)df, z = (cbrt(chi / k) - (1 - 2 / (9 * k))) / sqrt(2 / (9 * k));
  *out_z = z;
  return z < 9;
}
#endif
