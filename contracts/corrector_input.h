// Inputs of the sag position corrector.
#ifndef CORRECTOR_INPUT_H_
#define CORRECTOR_INPUT_H_
#include "models/transmissionline/line_structure.h"
#include "models/sagging/cable_sag_position_corrector.h"

#ifdef OTLS_SYMBOLIC
extern "C" {
Catenary3d S__ZNK9LineCable18CatenaryRulingSpanEv(const LineCable* c) {
  Catenary3d r;
  r.set_tension_horizontal(__vc_state("ruling.tension", c));
  r.set_weight_unit(Vector3d(__vc_state("ruling.wx", c), __vc_state("ruling.wy", c), __vc_state("ruling.wz", c)));
  r.set_spacing_endpoints(Vector3d(__vc_state("ruling.x", c), __vc_state("ruling.y", c), __vc_state("ruling.z", c)));
  return r;
}
}
#endif
typedef std::vector<Point3d<double>> Points;
static void AnyLine(const LineCable& cable, const Points& points) {
#ifndef OTLS_SYMBOLIC  // the replay needs a cable that hangs
  static Cable k; k.diameter = 1; k.weight_unit = 1;
  static WeatherLoadCase w; w.thickness_ice = 0; w.density_ice = 0; w.pressure_wind = 0; w.temperature_cable = 60;
  LineCable& c = const_cast<LineCable&>(cable);
  double h = 6000, z = 0;
  SAMPLE(h, 3000, 9000);
  CableConstraint q; q.case_weather = &w; q.limit = h; q.type_limit = CableConstraint::LimitType::kHorizontalTension;
  c.set_cable(&k); c.set_constraint(q); c.set_spacing_attachments_ruling_span(Vector3d(1000, 0, 0));
  Points& p = const_cast<Points&>(points);
  if (p.size() < 2) p.resize(6);
  for (std::size_t i = 0; i < p.size(); i++) {
    SAMPLE(z, -50, 50);
    p[i].x = 1000 * i + z; p[i].y = 0; p[i].z = z;
  }
#endif
  REQUIRES(2 <= points.size());
}
#endif
