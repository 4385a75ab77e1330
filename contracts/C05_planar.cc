// C05: queries of the spatial catenary: the planar catenary of the swung plane, hung between the supports.
#include "vector_contract.h"
#include "models/transmissionline/catenary.h"

static void Make(Catenary3d& c, double& h, double& wy, double& wz, double& a, double& b) {
  SAMPLE(h, 500, 20000); SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(a, 100, 1500); SAMPLE(b, -300, 300);
  REQUIRES(0 < h && 0 <= wy && 0 < wz && 0 < a);
  c.set_tension_horizontal(h);
  c.set_weight_unit(Vector3d(0, wy, wz));
  c.set_spacing_endpoints(Vector3d(a, 0, b));
}
// the planar catenary in the plane of the resultant load
static void Planar(Catenary2d& d, double h, double wy, double wz, double a, double b) {
  const double w = std::sqrt(wy * wy + wz * wz), v = b * wz / w;
  d.set_tension_horizontal(h);
  d.set_weight_unit(w);
  d.set_spacing_endpoints(Vector2d(std::sqrt(a * a + b * b - v * v), v));
}
CONTRACT K_planar_quantities(double h, double wy, double wz, double a, double b, double s) {
  Catenary3d c; Make(c, h, wy, wz, a, b); SAMPLE(s, 0, 1);
  Catenary2d d; Planar(d, h, wy, wz, a, b);
  ENSURES("constant", EQ(c.Constant(), d.Constant()));
  ENSURES("length", EQ(c.Length(), d.Length()));
  ENSURES("slack", EQ(c.LengthSlack(), d.LengthSlack()));
  ENSURES("sag", EQ(c.Sag(), d.Sag()));
  ENSURES("sag at a position", EQ(c.Sag(s), d.Sag(s)));
  ENSURES("tension", EQ(c.Tension(s), d.Tension(s)));
  ENSURES("average tension", EQ(c.TensionAverage(0), d.TensionAverage(0)));
  ENSURES("maximum tension", EQ(c.TensionMax(), d.TensionMax()));
  ENSURES("low point", EQ(c.PositionFractionOrigin(), d.PositionFractionOrigin()));
  ENSURES("sag point", EQ(c.PositionFractionSagPoint(), d.PositionFractionSagPoint()));
  ENSURES("horizontal tension", EQ(c.tension_horizontal(), h));
}
CONTRACT K_swing(double h, double wy, double wz, double a, double b) {
  Catenary3d c; Make(c, h, wy, wz, a, b);
  ENSURES("swing follows the load", EQ(std::tan(c.SwingAngle() * SPEC_PI / 180) * wz, wy));
}
