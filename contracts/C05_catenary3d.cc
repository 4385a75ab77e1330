// C05: the spatial catenary: the planar catenary of the swung plane, hung between the supports.
#include "catenary_contract.h"
#include "models/transmissionline/catenary.h"

static void Set(Catenary3d& c, double h, double wy, double wz, double a, double b) {
  c.set_tension_horizontal(h);
  c.set_weight_unit(Vector3d(0, wy, wz));
  c.set_spacing_endpoints(Vector3d(a, 0, b));
}
LEMMA_FN L_plane(double wy, double wz, double a, double b, double w) {
  REQUIRES(0 < w && w * w == wy * wy + wz * wz && 0 < a);
  LEMMA("times the load squared", (a * a + b * b - (b * wz / w) * (b * wz / w)) * (w * w) == (a * w) * (a * w) + (b * wy) * (b * wy));
  LEMMA("positive product", 0 < (a * w) * (a * w));
  LEMMA("positive numerator", 0 < (a * w) * (a * w) + (b * wy) * (b * wy));
  ENSURES("room in the swung plane", 0 < a * a + b * b - (b * wz / w) * (b * wz / w));
}
// the swung plane has room for the planar catenary
static void Room(double wy, double wz, double a, double b) {
#ifdef OTLS_SYMBOLIC
  const double w = std::sqrt(wy * wy + wz * wz), v = b * wz / w, c = std::sqrt(a * a + b * b);
  LEMMA("load", 0 < w && w * w == wy * wy + wz * wz);
  LEMMA("distance of the supports", 0 < c && c * c == a * a + b * b);
  L_plane(wy, wz, a, b, w);
  LEMMA("planar spacing", 0 < std::sqrt(c * c - v * v));
#endif
}
static void Make(Catenary3d& c, double& h, double& wy, double& wz, double& a, double& b) {
  SAMPLE(h, 500, 20000); SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(a, 100, 1500); SAMPLE(b, -300, 300);
  REQUIRES(0 < h && 0 <= wy && 0 < wz && 0 < a);
  Room(wy, wz, a, b);
  Set(c, h, wy, wz, a, b);
}
// the planar catenary in the plane of the resultant load
static void Planar(Catenary2d& d, double h, double wy, double wz, double a, double b) {
  const double w = std::sqrt(wy * wy + wz * wz), v = b * wz / w;
  d.set_tension_horizontal(h);
  d.set_weight_unit(w);
  d.set_spacing_endpoints(Vector2d(std::sqrt(a * a + b * b - v * v), v));
}
// rotations below the documented threshold of 0.00005 degrees are not applied by the vector class
static bool Turns(double angle) { return 0.00005 <= angle || angle <= -0.00005; }
#ifdef OTLS_SYMBOLIC
LEMMA_FN L_cosines(double a, double b, double c, double p) {
  REQUIRES(0 < a && 0 < c && c == std::sqrt(a * a + b * b) && p == __vc_polar(a, b));
  ENSURES("cosine", a == c * std::cos(p));
  ENSURES("sine", b == c * std::sin(p));
}
LEMMA_FN L_addition(double a, double b, double x, double v, double c, double p, double q) {
  REQUIRES(a == c * std::cos(p) && b == c * std::sin(p) && x == c * std::cos(q) && v == c * std::sin(q));
  LEMMA("x", c * std::cos(q) * std::cos(p - q) - c * std::sin(q) * std::sin(p - q) == c * std::cos(p));
  LEMMA("y", c * std::cos(q) * std::sin(p - q) + c * std::sin(q) * std::cos(p - q) == c * std::sin(p));
  ENSURES("turned x", x * std::cos(p - q) - v * std::sin(p - q) == a);
  ENSURES("turned y", x * std::sin(p - q) + v * std::cos(p - q) == b);
}
LEMMA_FN L_turn(double a, double b, double x, double v) {
  REQUIRES(0 < a && 0 < x && a * a + b * b == x * x + v * v);
  const double p = __vc_polar(a, b), q = __vc_polar(x, v), t = p - q, c = std::sqrt(a * a + b * b);
  LEMMA("length", c == std::sqrt(x * x + v * v) && 0 < c && c * c == a * a + b * b);
  L_cosines(a, b, c, p); L_cosines(x, v, c, q);
  L_addition(a, b, x, v, c, p, q);
  ENSURES("turned to the chord x", x * std::cos(t) - v * std::sin(t) == a);
  ENSURES("turned to the chord y", x * std::sin(t) + v * std::cos(t) == b);
}
#endif
// the chord turns from the swung plane to the vertical plane
static double ChordTurn(double wy, double wz, double a, double b) {
  const double w = std::sqrt(wy * wy + wz * wz), v = b * wz / w;
  const double c = std::sqrt(a * a + b * b), x = std::sqrt(c * c - v * v);
#ifdef OTLS_SYMBOLIC
  LEMMA("planar distance", x * x + v * v == c * c);
  L_turn(a, b, x, v);
#endif
  return Vector2d(a, b).Angle() - Vector2d(x, v).Angle();
}
static void Ends(Catenary3d& c, double a, double b) {
  const Point3d<double> p = c.Coordinate(0), q = c.Coordinate(1);
  const Point3d<double> u = c.CoordinateChord(0), v = c.CoordinateChord(1);
  ENSURES("left x", EQ(p.x, 0));
  ENSURES("left y", EQ(p.y, 0));
  ENSURES("left z", EQ(p.z, 0));
  ENSURES("right x", EQ(q.x, a));
  ENSURES("right y", EQ(q.y, 0));
  ENSURES("right z", EQ(q.z, b));
  ENSURES("chord starts at the origin", EQ(u.x, 0) && EQ(u.y, 0) && EQ(u.z, 0));
  ENSURES("chord ends at the spacing x", EQ(v.x, a));
  ENSURES("chord ends at the spacing y", EQ(v.y, 0));
  ENSURES("chord ends at the spacing z", EQ(v.z, b));
}
CONTRACT K_ends_inclined(double h, double wy, double wz, double a, double b, AxisDirectionType t) {
  Catenary3d c; Make(c, h, wy, wz, a, b);
  REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);
  c.set_direction_transverse(t);
  REQUIRES(Turns(ChordTurn(wy, wz, a, b)));
  Ends(c, a, b);
}
CONTRACT K_ends_level(double h, double wy, double wz, double a, AxisDirectionType t) {
  Catenary3d c; double zero = 0; Make(c, h, wy, wz, a, zero);
  REQUIRES(zero == 0);
  REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);
  c.set_direction_transverse(t);
  Ends(c, a, 0);
}
CONTRACT K_ends_still_air(double h, double w, double a, double b) {
  Catenary3d c; double zero = 0; Make(c, h, zero, w, a, b);
  REQUIRES(zero == 0);
  Ends(c, a, b);
}
CONTRACT K_sag_distance(double h, double wy, double wz, double a, double b, double s, AxisDirectionType t) {
  Catenary3d c; Make(c, h, wy, wz, a, b); SAMPLE(s, 0, 1);
  REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);
  c.set_direction_transverse(t);
  const Point3d<double> p = c.Coordinate(s), q = c.CoordinateChord(s);
  const double x = p.x - q.x, y = p.y - q.y, z = p.z - q.z;
  ENSURES("distance from the chord is the sag", EQ(x * x + y * y + z * z, c.Sag(s) * c.Sag(s)));
}
// the other directions: K_reverse and K_mirror
CONTRACT K_tension_vector(double h, double wy, double wz, double a, double b, double s) {
  Catenary3d c; Make(c, h, wy, wz, a, b); SAMPLE(s, 0, 1);
  const AxisDirectionType e = AxisDirectionType::kPositive;
  const Vector3d f = c.Tension(s, e), g = c.TangentVector(s, e);
  const double m = c.Tension(s);
  ENSURES("magnitude of the tension", EQ(f.x() * f.x() + f.y() * f.y() + f.z() * f.z(), m * m));
  ENSURES("unit tangent", EQ(g.x() * g.x() + g.y() * g.y() + g.z() * g.z(), 1));
  ENSURES("along the tangent x", EQ(f.x(), m * g.x()));
  ENSURES("along the tangent y", EQ(f.y(), m * g.y()));
  ENSURES("along the tangent z", EQ(f.z(), m * g.z()));
}
CONTRACT K_reverse(double h, double wy, double wz, double a, double b, double s, AxisDirectionType t) {
  Catenary3d c; Make(c, h, wy, wz, a, b); SAMPLE(s, 0, 1);
  REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);
  c.set_direction_transverse(t);
  const Vector3d f = c.Tension(s, AxisDirectionType::kPositive), g = c.Tension(s, AxisDirectionType::kNegative);
  ENSURES("reverse x", EQ(f.x(), -g.x()));
  ENSURES("reverse y", EQ(f.y(), -g.y()));
  ENSURES("reverse z", EQ(f.z(), -g.z()));
}
// still air: the planar catenary in the vertical plane
CONTRACT K_vertical_load(double h, double w, double a, double b, double s) {
  Catenary3d c; double zero = 0; Make(c, h, zero, w, a, b); SAMPLE(s, 0, 1);
  REQUIRES(zero == 0);
  Catenary2d d;
  d.set_tension_horizontal(h); d.set_weight_unit(w); d.set_spacing_endpoints(Vector2d(a, b));
  const Point2d<double> p = d.Coordinate(s, true);
  const Point3d<double> q = c.Coordinate(s);
  const Vector3d f = c.Tension(s, AxisDirectionType::kPositive);
  const Vector2d g = d.Tension(s, AxisDirectionType::kPositive);
  ENSURES("curve x", EQ(q.x, p.x));
  ENSURES("curve stays in the plane", EQ(q.y, 0));
  ENSURES("curve z", EQ(q.z, p.y));
  ENSURES("tension x", EQ(f.x(), g.x()));
  ENSURES("tension stays in the plane", EQ(f.y(), 0));
  ENSURES("tension z", EQ(f.z(), g.y()));
  ENSURES("no swing", EQ(c.SwingAngle(), 0));
  ENSURES("vertical angle", EQ(c.TangentAngleVertical(s, AxisDirectionType::kPositive), d.TangentAngle(s, AxisDirectionType::kPositive)));
}
// level span: the end tensions carry exactly the cable's load
CONTRACT K_level_equilibrium(double h, double wy, double wz, double a, AxisDirectionType t) {
  Catenary3d c; double zero = 0; Make(c, h, wy, wz, a, zero);
  REQUIRES(zero == 0);
  REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);
  c.set_direction_transverse(t);
  REQUIRES(Turns(c.SwingAngle()));
  const Vector3d f = c.Tension(1, AxisDirectionType::kPositive), g = c.Tension(0, AxisDirectionType::kNegative);
  const double l = c.Length(), sign = t == AxisDirectionType::kPositive ? -1 : 1;
  ENSURES("longitudinal", EQ(f.x() + g.x(), 0));
  ENSURES("transverse", EQ(f.y() + g.y(), sign * wy * l));
  ENSURES("vertical", EQ(f.z() + g.z(), wz * l));
}
// the transverse direction mirrors the curve
CONTRACT K_mirror(double h, double wy, double wz, double a, double b, double s) {
  Catenary3d c, d; Make(c, h, wy, wz, a, b); Set(d, h, wy, wz, a, b); SAMPLE(s, 0, 1);
  d.set_direction_transverse(AxisDirectionType::kNegative);
  const Point3d<double> p = c.Coordinate(s), q = d.Coordinate(s);
  const Vector3d f = c.Tension(s, AxisDirectionType::kPositive), g = d.Tension(s, AxisDirectionType::kPositive);
  ENSURES("x", EQ(p.x, q.x));
  ENSURES("y", EQ(p.y, -q.y));
  ENSURES("z", EQ(p.z, q.z));
  ENSURES("tension x", EQ(f.x(), g.x()));
  ENSURES("tension y", EQ(f.y(), -g.y()));
  ENSURES("tension z", EQ(f.z(), g.z()));
}
