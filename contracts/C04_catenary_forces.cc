// C04: equilibrium of the planar catenary: constant horizontal component, vertical components that
// differ by the weight of the cable between the points, magnitude H cosh(x w/H), largest at the
// higher support, and averages that are averages of that distribution.
#include "catenary_input.h"

CONTRACT K_horizontal(double h, double w, double a, double b, double s) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1);
  const Vector2d t = c.Tension(s, AxisDirectionType::kPositive);
  const Vector2d n = c.Tension(s, AxisDirectionType::kNegative);
  ENSURES("horizontal component", EQ(t.x(), h));
  ENSURES("reverse x", EQ(n.x(), -h));
  ENSURES("reverse y", EQ(n.y(), -t.y()));
  ENSURES("magnitude of the vector", EQ(c.Tension(s), t.Magnitude()));
  ENSURES("magnitude from the curve", EQ(c.Tension(s), h * std::cosh(c.Coordinate(s).x * w / h)));
  ENSURES("never below the horizontal tension", LE(h, c.Tension(s)));
}
CONTRACT K_vertical(double h, double w, double a, double b, double s, double r) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1); SAMPLE(r, 0, 1);
  const Vector2d t = c.Tension(s, AxisDirectionType::kPositive);
  const Vector2d u = c.Tension(r, AxisDirectionType::kPositive);
  ENSURES("weight between the points", EQ(t.y() - u.y(), w * (s - r) * c.Length()));
  ENSURES("tension rises with height", EQ(c.Tension(s) - c.Tension(r), w * (c.Coordinate(s).y - c.Coordinate(r).y)));
}
CONTRACT K_supports(double h, double w, double a, double b) {
  Catenary2d c; Make(c, h, w, a, b);
  const Vector2d t1 = c.Tension(1, AxisDirectionType::kPositive);
  const Vector2d t0 = c.Tension(0, AxisDirectionType::kNegative);
  ENSURES("no net horizontal force", EQ(t0.x() + t1.x(), 0));
  ENSURES("supports carry the weight", EQ(t0.y() + t1.y(), w * c.Length()));
  ENSURES("difference by height", EQ(c.Tension(1) - c.Tension(0), w * b));
}
// the square of the tension is a convex quadratic of the position
LEMMA_FN L_convex(double h, double v0, double d, double s, double t0, double t1, double t) {
  REQUIRES(0 <= s && s <= 1);
  REQUIRES(0 <= t0 && 0 <= t1 && 0 <= t);
  REQUIRES(t0 * t0 == h * h + v0 * v0);
  REQUIRES(t1 * t1 == h * h + (v0 + d) * (v0 + d));
  REQUIRES(t * t == h * h + (v0 + s * d) * (v0 + s * d));
  LEMMA("convex", t * t <= (1 - s) * (t0 * t0) + s * (t1 * t1));
  LEMMA("chord", (1 - s) * (t0 * t0) + s * (t1 * t1) <= t0 * t0 || (1 - s) * (t0 * t0) + s * (t1 * t1) <= t1 * t1);
  LEMMA("squares", t * t <= t0 * t0 || t * t <= t1 * t1);
  ENSURES("below an end", t <= t0 || t <= t1);
}
CONTRACT K_maximum(double h, double w, double a, double b, double s) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1);
  REQUIRES(0 <= s && s <= 1);
  const double t0 = c.Tension(0), t1 = c.Tension(1), t = c.Tension(s), m = c.TensionMax();
#ifdef OTLS_SYMBOLIC
  const double v0 = c.Tension(0, AxisDirectionType::kPositive).y();
  L_convex(h, v0, w * c.Length(), s, t0, t1, t);
#endif
  LEMMA("difference by height", EQ(t1 - t0, w * b));
  LEMMA("sign of the difference", (b <= 0 || t0 <= t1) && (b > 0 || t1 <= t0));
  ENSURES("not below the left support", LE(t0, m));
  ENSURES("not below the right support", LE(t1, m));
  ENSURES("attained", EQ(m, t0) || EQ(m, t1));
  ENSURES("not exceeded along the curve", LE(t, m));
}
// mean over arc length: (1/L) integral of H cosh(x/k) dl = (1/L) integral of H cosh(x/k)^2 dx
CONTRACT K_average_exact(double h, double w, double a, double b) {
  Catenary2d c; Make(c, h, w, a, b);
  const double x0 = c.Coordinate(0).x * w / h, x1 = c.Coordinate(1).x * w / h;
  ENSURES("mean tension", EQ(2 * w * c.Length() * c.TensionAverage(0),
                             h * h * (std::sinh(x1) * std::cosh(x1) - std::sinh(x0) * std::cosh(x0) + x1 - x0)));
}
CONTRACT K_average_points(double h, double w, double a, double b, int n) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE_INT(n, 1, 12);
  REQUIRES(0 < n);
  double sum = 0;
  for (int i = 0; i <= n; i++) {
    sum += c.Tension(i / (double)n);
  }
  ENSURES("mean of evenly spaced points", EQ(c.TensionAverage(n), sum / (n + 1)));
}
CONTRACT K_average_few_points(double h, double w, double a, double b) {
  Catenary2d c; Make(c, h, w, a, b);
  ENSURES("two ends", EQ(c.TensionAverage(1), (c.Tension(0) + c.Tension(1)) / 2));
  ENSURES("three points", EQ(c.TensionAverage(2), (c.Tension(0) + c.Tension(0.5) + c.Tension(1)) / 3));
  ENSURES("five points", EQ(c.TensionAverage(4), (c.Tension(0) + c.Tension(0.25) + c.Tension(0.5) + c.Tension(0.75) + c.Tension(1)) / 5));
}
// scaling tension and weight together leaves the curve and scales every force
CONTRACT K_similarity(double h, double w, double a, double b, double s, double k) {
  Catenary2d c; Make(c, h, w, a, b); SAMPLE(s, 0, 1); SAMPLE(k, 0.5, 2);
  REQUIRES(0 < k);
  Catenary2d d;
  d.set_tension_horizontal(k * h);
  d.set_weight_unit(k * w);
  d.set_spacing_endpoints(Vector2d(a, b));
  ENSURES("same x", EQ(d.Coordinate(s).x, c.Coordinate(s).x));
  ENSURES("same y", EQ(d.Coordinate(s).y, c.Coordinate(s).y));
  ENSURES("same length", EQ(d.Length(), c.Length()));
  ENSURES("scaled tension", EQ(d.Tension(s), k * c.Tension(s)));
}
