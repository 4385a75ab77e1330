// C19: the stress-strain curve of a cable component.
#include "polynomial_contract.h"
#include "component_input.h"
#include "models/sagtension/cable_component_elongation_model.h"

typedef SagTensionCableComponent::PolynomialType Curve;
typedef std::vector<Point2d<double>> Regions;
#define COMPONENT_ARGS const CableComponent& b, bool core, double reference, double temperature, double stretched, double load, Curve curve
#define COMPONENT                                                                                                         \
  SAMPLE(reference, 0, 80); SAMPLE(temperature, -20, 250); SAMPLE(stretched, -20, 250); SAMPLE(load, 0, 5000);            \
  AnyComponent(b, core);                                                                                                  \
  REQUIRES(curve == Curve::kCreep || curve == Curve::kLoadStrain);                                                        \
  REQUIRES(0 <= load);                                                                                                    \
  SagTensionCableComponent part; part.set_component_base(&b);                                                             \
  CableState state; state.temperature = temperature; state.type_polynomial = curve;                                       \
  CableStretchState stretch; stretch.temperature = stretched; stretch.type_polynomial = curve; stretch.load = load;       \
  CableComponentElongationModel m;                                                                                        \
  m.set_component_cable(&part); m.set_state(&state); m.set_state_stretch(&stretch); m.set_temperature_reference(&reference); \
  const double limit = curve == Curve::kCreep ? b.load_limit_polynomial_creep : b.load_limit_polynomial_loadstrain;       \
  const Regions p = m.PointsRegions();                                                                                    \
  const double ec = b.modulus_compression_elastic_area, et = b.modulus_tension_elastic_area;

CONTRACT K_regions(COMPONENT_ARGS) {
  COMPONENT
  ENSURES("three points", p.size() == 3);
  ENSURES("unloaded", p.at(0).y == 0);
  ENSURES("stretch load", p.at(1).y == load);
  ENSURES("end of the curve", p.at(2).y == limit);
  ENSURES("unloads along the virtual modulus line", EQ((p.at(1).x - p.at(0).x) * et, load));
}
CONTRACT K_joints(COMPONENT_ARGS) {
  COMPONENT
  REQUIRES(0 < load && load < limit && p.at(1).x < p.at(2).x);
  ENSURES("no load at the unloaded strain", EQ(m.Load(p.at(0).x), 0));
  ENSURES("stretch load at the end of the stretched region", EQ(m.Load(p.at(1).x), load));
  ENSURES("limit at the end of the curve", EQ(m.Load(p.at(2).x), limit));
}
CONTRACT K_unsettled(COMPONENT_ARGS, double s, double t, double u, bool asked) {
  SAMPLE(s, -0.001, 0.01); SAMPLE(t, -20, 250); SAMPLE(u, 0, 80);
  COMPONENT
  if (asked) m.Load(s);
  state.temperature = t; m.set_state(&state);
  CableComponentElongationModel n;
  n.set_component_cable(&part); n.set_state(&state); n.set_state_stretch(&stretch); n.set_temperature_reference(&reference);
  ENSURES("load follows the state", EQ(m.Load(s), n.Load(s)));
  ENSURES("slope follows the state", EQ(m.Slope(s), n.Slope(s)));
}
CONTRACT K_compressed(COMPONENT_ARGS, double s) {
  SAMPLE(s, -0.01, 0.01);
  COMPONENT
  REQUIRES(s < p.at(0).x);
  ENSURES("load", EQ(m.Load(s), (s - p.at(0).x) * ec));
  ENSURES("slope", m.Slope(s) == ec);
  ENSURES("inverse", EQ(m.Strain(m.Load(s)), s));
}
CONTRACT K_stretched(COMPONENT_ARGS, double f) {
  SAMPLE(f, 0, 0.002);
  COMPONENT
  const double s = p.at(0).x + f;
  REQUIRES(p.at(0).x < s && s < p.at(1).x);
  ENSURES("load", EQ(m.Load(s), (s - p.at(0).x) * et));
  ENSURES("slope", m.Slope(s) == et);
  ENSURES("inverse", EQ(m.Strain(m.Load(s)), s));
}
CONTRACT K_extrapolated(COMPONENT_ARGS, double f) {
  SAMPLE(f, 0, 0.01);
  COMPONENT
  REQUIRES(0 < f && p.at(1).x < p.at(2).x && load < limit);
  const double s = p.at(2).x + f;
  ENSURES("load", EQ(m.Load(s), limit + f * m.Slope(s)));
  ENSURES("slope", 100000 <= m.Slope(s));
  ENSURES("inverse", EQ(m.Strain(m.Load(s)), s));
}
CONTRACT K_curve(COMPONENT_ARGS, double f) {
  SAMPLE(f, 0, 0.01);
  COMPONENT
  const double s = p.at(1).x + f;
  REQUIRES(p.at(1).x < s && s < p.at(2).x);
  const double t = b.coefficient_expansion_linear_thermal * (temperature - reference), x = (s - t) / b.scale_polynomial_x;
  const Polynomial y(curve == Curve::kCreep ? &b.coefficients_polynomial_creep : &b.coefficients_polynomial_loadstrain);
  ENSURES("load", EQ(m.Load(s), y.Y(x) * b.scale_polynomial_y));
  ENSURES("slope", EQ(m.Slope(s), y.Slope(x) * b.scale_polynomial_y / b.scale_polynomial_x));
}
CONTRACT K_temperature(COMPONENT_ARGS, double warmer, double s) {
  SAMPLE(warmer, 0, 200); SAMPLE(s, -0.002, 0.01);
  COMPONENT
  const double l = m.Load(s);
  const double shift = b.coefficient_expansion_linear_thermal * warmer;
  CableState hot = state; hot.temperature = temperature + warmer;
  CableComponentElongationModel n;
  n.set_component_cable(&part); n.set_state(&hot); n.set_state_stretch(&stretch); n.set_temperature_reference(&reference);
  const Regions q = n.PointsRegions();
  ENSURES("shifted regions", EQ(q.at(0).x, p.at(0).x + shift) && EQ(q.at(1).x, p.at(1).x + shift) && EQ(q.at(2).x, p.at(2).x + shift));
#ifndef OTLS_SYMBOLIC  // away from the boundaries, where rounding picks the region
  for (const Point2d<double>& r : p) REQUIRES(s < r.x - 0.0000001 || r.x + 0.0000001 < s);
#endif
  ENSURES("load at the shifted strain", EQ(n.Load(s + shift), l));
  ENSURES("slope at the shifted strain", EQ(n.Slope(s + shift), m.Slope(s)));
}
