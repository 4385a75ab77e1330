// C03: geometry of the planar catenary: it passes through both supports, is the curve
// y = H/w (cosh(x w/H) - 1), has the arc length of that curve, its position fraction is arc length,
// and its sag is measured from the chord and largest where the curve is parallel to the chord.
#include "catenary_input.h"

CONTRACT K_ends(double h, double w, double a, double b) {
  Catenary2d c; Make(c, h, w, a, b);
  const Point2d<double> p0 = c.Coordinate(0, true), p1 = c.Coordinate(1, true);
  ENSURES("left x", EQ(p0.x, 0));
  ENSURES("left y", EQ(p0.y, 0));
  ENSURES("right x", EQ(p1.x, a));
  ENSURES("right y", EQ(p1.y, b));
}
CONTRACT K_curve(double h, double w, double a, double b, double s) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1);
  const Point2d<double> p = c.Coordinate(s);
  ENSURES("on the catenary", EQ(p.y, (h / w) * (std::cosh(p.x * w / h) - 1)));
  const Point2d<double> q = c.Coordinate(s, true), q0 = c.Coordinate(0, false);
  ENSURES("shifted x", EQ(q.x, p.x - q0.x));
  ENSURES("shifted y", EQ(q.y, p.y - q0.y));
  ENSURES("constant", EQ(c.Constant(), h / w));
}
CONTRACT K_length(double h, double w, double a, double b) {
  Catenary2d c; Make(c, h, w, a, b);
  const double L = c.Length();
  const double q = 2 * (h / w) * std::sinh(a * w / (2 * h));
  ENSURES("arc length", EQ(L * L, b * b + q * q));
  ENSURES("length positive", 0 < L);
  ENSURES("slack", EQ(c.LengthSlack(), L - Vector2d(a, b).Magnitude()));
  ENSURES("slack not negative", LE(0, c.LengthSlack()));
}
// position fraction measures arc length: s L from the left support along (H/w) sinh(x w/H)
CONTRACT K_fraction(double h, double w, double a, double b, double s) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1);
  const double x0 = c.Coordinate(0).x, x = c.Coordinate(s).x;
  ENSURES("arc length from the left support",
          EQ((h / w) * (std::sinh(x * w / h) - std::sinh(x0 * w / h)), s * c.Length()));
}
CONTRACT K_origin(double h, double w, double a, double b) {
  Catenary2d c; Make(c, h, w, a, b);
  const double f = c.PositionFractionOrigin();
  ENSURES("lowest point x", EQ(c.Coordinate(f).x, 0));
  ENSURES("lowest point y", EQ(c.Coordinate(f).y, 0));
  ENSURES("horizontal there", EQ(c.TangentAngle(f, AxisDirectionType::kPositive), 0));
}
CONTRACT K_tangent(double h, double w, double a, double b, double s) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1);
  const double t = c.TangentAngle(s, AxisDirectionType::kPositive);
  const double x = c.Coordinate(s).x;
  ENSURES("slope of the curve", EQ(std::tan(t * SPEC_PI / 180), std::sinh(x * w / h)));
  ENSURES("angle range", -90 < t && t < 90);
  ENSURES("opposite direction", EQ(c.TangentAngle(s, AxisDirectionType::kNegative), -t));
  const Vector2d v = c.TangentVector(s, AxisDirectionType::kPositive);
  const Vector2d n = c.TangentVector(s, AxisDirectionType::kNegative);
  ENSURES("unit vector", EQ(v.x() * v.x() + v.y() * v.y(), 1));
  ENSURES("along the tangent", EQ(v.y(), v.x() * std::sinh(x * w / h)));
  ENSURES("points ahead", 0 < v.x());
  ENSURES("reverse x", EQ(n.x(), -v.x()));
  ENSURES("reverse y", EQ(n.y(), -v.y()));
}
// the position of a tangent angle has that tangent angle
CONTRACT K_position_of_angle(double h, double w, double a, double b, double t) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(t, -60, 60);
  REQUIRES(-90 < t && t < 90);
  const double f = c.PositionFraction(t);
  const double x = c.Coordinate(f).x;
  ENSURES("slope at the position", EQ(std::sinh(x * w / h), std::tan(t * SPEC_PI / 180)));
}
CONTRACT K_sag_point(double h, double w, double a, double b) {
  Catenary2d c; Make(c, h, w, a, b);
  const double f = c.PositionFractionSagPoint();
  ENSURES("parallel to the chord", EQ(std::tan(c.TangentAngle(f, AxisDirectionType::kPositive) * SPEC_PI / 180), b / a));
  ENSURES("reported sag is the sag there", EQ(c.Sag(), c.Sag(f)));
}
CONTRACT K_chord(double h, double w, double a, double b, double s) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1);
  const Point2d<double> p = c.Coordinate(s, true), q = c.CoordinateChord(s, true);
  ENSURES("chord below the same x", EQ(q.x, p.x));
  ENSURES("chord is the line through the supports", EQ(q.y, b * q.x / a));
  ENSURES("sag is the height of the chord above the curve", EQ(c.Sag(s), q.y - p.y));
  const Point2d<double> r = c.CoordinateChord(s), r0 = c.Coordinate(0);
  ENSURES("unshifted chord x", EQ(r.x, q.x + r0.x));
  ENSURES("unshifted chord y", EQ(r.y, q.y + r0.y));
}
// a convex curve lies above its tangents, so the sag is largest where the tangent is parallel to the chord
LEMMA_FN L_above_tangent(double k, double c, double cp, double sp, double x, double xp, double y, double yp, double a, double b) {
  REQUIRES(0 < k && 0 < a);
  REQUIRES(c >= cp + sp * ((x - xp) / k));
  REQUIRES(sp == b / a);
  REQUIRES(y == k * (c - 1));
  REQUIRES(yp == k * (cp - 1));
  ENSURES("above the tangent", (y - yp) * a >= b * (x - xp));
}
LEMMA_FN L_tangent_line(double x, double y, double xp, double yp, double a, double b, double x0, double y0, double g, double gp) {
  REQUIRES(0 < a);
  REQUIRES((y - yp) * a >= b * (x - xp));
  REQUIRES(g == y0 + (x - x0) * (b / a) - y);
  REQUIRES(gp == y0 + (xp - x0) * (b / a) - yp);
  ENSURES("sag at the parallel point is larger", g <= gp);
}
CONTRACT K_sag_maximum(double h, double w, double a, double b, double s) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1);
  const double f = c.PositionFractionSagPoint();
  const Point2d<double> p = c.Coordinate(s), q = c.Coordinate(f), p0 = c.Coordinate(0);
  const double g = c.Sag(s), gp = c.Sag();
#ifdef OTLS_SYMBOLIC
  const double k = h / w, co = std::cosh(p.x / k), cop = std::cosh(q.x / k), sip = std::sinh(q.x / k);
  MATHFACT("cosh lies above its tangents", co >= cop + sip * ((p.x - q.x) / k));
  L_above_tangent(k, co, cop, sip, p.x, q.x, p.y, q.y, a, b);
  L_tangent_line(p.x, p.y, q.x, q.y, a, b, p0.x, p0.y, g, gp);
#endif
  ENSURES("largest at the sag point", LE(g, gp));
}
