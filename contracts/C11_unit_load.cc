// C11: the unit load of a cable: weight plus ice annulus downwards, wind on the iced diameter across.
#include "spec.h"
#include "models/transmissionline/cable_unit_load_solver.h"

static WeatherLoadCase Weather(double t, double g, double p) {
  WeatherLoadCase c; c.thickness_ice = t; c.density_ice = g; c.pressure_wind = p; c.temperature_cable = 15;
  return c;
}
CONTRACT K_load(double d, double w, double t, double g, double p) {
  SAMPLE(d, 0.01, 0.2); SAMPLE(w, 0.1, 5); SAMPLE(t, 0, 0.2); SAMPLE(g, 0, 60); SAMPLE(p, 0, 60);
  CableUnitLoadSolver s; s.set_diameter_cable(&d); s.set_weight_unit_cable(&w);
  const Vector3d u = s.UnitCableLoad(Weather(t, g, p));
  ENSURES("nothing along the line", EQ(u.x(), 0));
  ENSURES("wind on the iced diameter", EQ(u.y(), (d + 2 * t) * p));
  ENSURES("weight of cable and ice annulus", EQ(u.z(), w + g * SPEC_PI * t * (d + t)));
  ENSURES("asked again", EQ(s.UnitCableLoad(Weather(t, g, p)).y(), u.y()) && EQ(s.UnitCableLoad(Weather(t, g, p)).z(), u.z()));
}
CONTRACT K_bare(double d, double w, double g) {
  SAMPLE(d, 0.01, 0.2); SAMPLE(w, 0.1, 5); SAMPLE(g, 0, 60);
  CableUnitLoadSolver s; s.set_diameter_cable(&d); s.set_weight_unit_cable(&w);
  const Vector3d u = s.UnitCableLoad(Weather(0, g, 0));
  ENSURES("bare cable in still air", EQ(u.x(), 0) && EQ(u.y(), 0) && EQ(u.z(), w));
}
LEMMA_FN L_annulus(double d, double t, double e) {
  REQUIRES(0 < d && 0 <= t && t <= e);
  ENSURES("a thicker annulus is larger", t * (d + t) <= e * (d + e));
}
LEMMA_FN L_product(double a, double b, double c, double d) {
  REQUIRES(0 <= a && a <= b && 0 <= c && c <= d);
  ENSURES("larger factors, larger product", a * c <= b * d);
}
CONTRACT K_more(double d, double w, double t, double g, double p, double t2, double g2, double p2) {
  SAMPLE(d, 0.01, 0.2); SAMPLE(w, 0.1, 5); SAMPLE(t, 0, 0.1); SAMPLE(g, 0, 40); SAMPLE(p, 0, 40);
  SAMPLE(t2, 0, 0.2); SAMPLE(g2, 0, 60); SAMPLE(p2, 0, 60);
  REQUIRES(0 < d && 0 < w && 0 <= t && t <= t2 && 0 <= g && g <= g2 && 0 <= p && p <= p2);
  CableUnitLoadSolver s; s.set_diameter_cable(&d); s.set_weight_unit_cable(&w);
  const Vector3d u = s.UnitCableLoad(Weather(t, g, p)), v = s.UnitCableLoad(Weather(t2, g2, p2));
#ifdef OTLS_SYMBOLIC
  L_annulus(d, t, t2);
  L_product(g, g2, t * (d + t), t2 * (d + t2));
  L_product(d + 2 * t, d + 2 * t2, p, p2);
#endif
  ENSURES("the transverse load does not shrink", LE(u.y(), v.y()) && LE(0, u.y()));
  ENSURES("the vertical load does not shrink", LE(u.z(), v.z()) && LE(w, u.z()));
}
// after any change of the cable, the load is that of a new solver
CONTRACT K_settings(double d, double w, double d2, double w2, double t, double g, double p, bool asked) {
  SAMPLE(d, 0.01, 0.2); SAMPLE(w, 0.1, 5); SAMPLE(d2, 0.01, 0.2); SAMPLE(w2, 0.1, 5); SAMPLE(t, 0, 0.1); SAMPLE(g, 0, 40); SAMPLE(p, 0, 40);
  CableUnitLoadSolver s, n; s.set_diameter_cable(&d); s.set_weight_unit_cable(&w);
  if (asked) s.UnitCableLoad(Weather(g, p, t));
  s.set_diameter_cable(&d2); s.set_weight_unit_cable(&w2);
  n.set_weight_unit_cable(&w2); n.set_diameter_cable(&d2);
  const Vector3d u = s.UnitCableLoad(Weather(t, g, p)), v = n.UnitCableLoad(Weather(t, g, p));
  ENSURES("load", EQ(u.x(), v.x()) && EQ(u.y(), v.y()) && EQ(u.z(), v.z()));
  ENSURES("settings kept", *s.diameter_cable() == d2 && *s.weight_unit_cable() == w2);
}
