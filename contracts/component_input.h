// A realistic cable component for the replay; the proof takes every component.
#ifndef COMPONENT_INPUT_H_
#define COMPONENT_INPUT_H_
#include "spec.h"
#include "models/transmissionline/cable.h"
static void AnyComponent(const CableComponent& given, bool core) {
#ifndef OTLS_SYMBOLIC
  CableComponent& b = const_cast<CableComponent&>(given);
  double k = 1, ec = 0, et = 0, a = 0;
  SAMPLE(k, 0.5, 1.5); SAMPLE(ec, 100000, 1000000); SAMPLE(et, 2000000, 5000000); SAMPLE(a, 0.000005, 0.00002);
  k *= 0.7264;
  if (core) {
    b.coefficients_polynomial_creep = {47.1 * k, 36211.3 * k, 12201.4 * k, -72392 * k, 46338 * k};
    b.coefficients_polynomial_loadstrain = {-69.3 * k, 38629 * k, 3998.1 * k, -45713 * k, 27892 * k};
    b.load_limit_polynomial_creep = 22406 * k; b.load_limit_polynomial_loadstrain = 19154 * k;
  } else {
    b.coefficients_polynomial_creep = {-544.8 * k, 21426.8 * k, -18842.2 * k, 5495 * k, 0};
    b.coefficients_polynomial_loadstrain = {-1213 * k, 44308.1 * k, -14004.4 * k, -37618 * k, 30676 * k};
    b.load_limit_polynomial_creep = 7535 * k; b.load_limit_polynomial_loadstrain = 20252 * k;
  }
  b.scale_polynomial_x = 0.01; b.scale_polynomial_y = 1; b.coefficient_expansion_linear_thermal = a;
  b.modulus_compression_elastic_area = ec; b.modulus_tension_elastic_area = et;
#endif
  REQUIRES(1 <= given.coefficients_polynomial_creep.size() && 1 <= given.coefficients_polynomial_loadstrain.size());
  REQUIRES(0 < given.scale_polynomial_x && 0 < given.scale_polynomial_y);
  REQUIRES(0 < given.modulus_compression_elastic_area && 0 < given.modulus_tension_elastic_area);
  REQUIRES(0 < given.load_limit_polynomial_creep && 0 < given.load_limit_polynomial_loadstrain);
}
#endif
