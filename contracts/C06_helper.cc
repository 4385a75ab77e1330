// C06: interpolation and rounding.
#include "spec.h"
#include "models/base/helper.h"

CONTRACT K_line(double x1, double y1, double x2, double y2, double x, double t) {
  SAMPLE(x1, -100, 100); SAMPLE(y1, -100, 100); SAMPLE(x2, -100, 100); SAMPLE(y2, -100, 100); SAMPLE(x, -200, 200); SAMPLE(t, -200, 200);
  REQUIRES(x1 != x2);
  ENSURES("first point", EQ(helper::LinearY(x1, y1, x2, y2, x1), y1));
  ENSURES("second point", EQT(helper::LinearY(x1, y1, x2, y2, x2), y2, 1e-9 * (std::fabs(y1) + std::fabs(y2))));
  const double d = (helper::LinearY(x1, y1, x2, y2, x) - helper::LinearY(x1, y1, x2, y2, t)) * (x2 - x1);
  ENSURES("constant slope", EQT(d, (x - t) * (y2 - y1), 1e-6));
  ENSURES("either order of the points", EQT(helper::LinearY(x1, y1, x2, y2, x), helper::LinearY(x2, y2, x1, y1, x), 1e-6 * (1 + std::fabs(x - x1) * std::fabs((y2 - y1) / (x2 - x1)))));
}
CONTRACT K_round(double x, int n) {
  SAMPLE(x, -1000, 1000); SAMPLE_INT(n, 0, 5);
  REQUIRES(0 <= n);
  const double p = std::pow(10, n), r = helper::Round(x, n);
  ENSURES("whole number of units of the last place", EQT(r * p, std::round(r * p), 1e-9));
  ENSURES("within half a unit", LE(std::fabs(r - x) * p, 0.5));
}
