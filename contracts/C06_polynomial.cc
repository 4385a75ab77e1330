// C06: polynomials are the sum of coefficient times power.
#include "spec.h"
#include "models/base/polynomial.h"

static double Sum(const std::vector<double>& c, double x) {
  double y = 0;
  for (int i = 0; i < static_cast<int>(c.size()); i++) y += c.at(i) * std::pow(x, i);
  return y;
}
CONTRACT K_value(const std::vector<double>& c, double x) {
  SAMPLE(x, -3, 3);
  Polynomial p(&c);
  ENSURES("value", EQ(p.Y(x), Sum(c, x)));
  ENSURES("order", EQ(p.OrderMax(), static_cast<int>(c.size()) - 1));
}
CONTRACT K_slope(const std::vector<double>& c, double x) {
  SAMPLE(x, -3, 3);
  REQUIRES(1 <= c.size());
  Polynomial p(&c);
  double y = 0;
  for (int i = 0; i < static_cast<int>(c.size()) - 1; i++) y += c.at(i + 1) * (i + 1) * std::pow(x, i);
  ENSURES("slope", EQ(p.Slope(x), y));
  ENSURES("derivative", EQ(p.Derivative().Y(x), y));
}
CONTRACT K_derivative(const std::vector<double>& c, int i) {
  REQUIRES(1 <= c.size());
  Polynomial p(&c);
  const Polynomial d = p.Derivative();
  ENSURES("one order less", EQ(d.OrderMax(), p.OrderMax() - 1));
  ENSURES_ALL("coefficient", j, 0, static_cast<int>(c.size()) - 1, EQ(d.coefficients()->at(j), c.at(j + 1) * (j + 1)));
}
// copies and assigned objects are independent of the original
CONTRACT K_copy(const std::vector<double>& c, double x, bool asked) {
  SAMPLE(x, -3, 3);
  REQUIRES(1 <= c.size());
  Polynomial p(&c);
  if (asked) p.Slope(x);
  double s;
  { Polynomial q(p); s = q.Slope(x); }
  ENSURES("copy evaluates alike", EQ(s, p.Slope(x)));
}
CONTRACT K_assign(const std::vector<double>& c, const std::vector<double>& d, double x, bool asked, bool asked2) {
  SAMPLE(x, -3, 3);
  REQUIRES(1 <= c.size() && 1 <= d.size());
  Polynomial p(&c);
  if (asked) p.Slope(x);
  Polynomial q(&d);
  if (asked2) q.Slope(x);
  q = p;
  p.set_coefficients(&d);
  Polynomial r(&c);
  ENSURES("assigned object evaluates like the source did", EQ(q.Slope(x), r.Slope(x)));
  ENSURES("value", EQ(q.Y(x), r.Y(x)));
}
