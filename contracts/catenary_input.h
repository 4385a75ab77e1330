#include "spec.h"
#include "models/transmissionline/catenary.h"
// every positive tension, weight and horizontal spacing; any vertical spacing
static void Make(Catenary2d& c, double& h, double& w, double& a, double& b) {
  SAMPLE(h, 500, 20000); SAMPLE(w, 0.3, 6); SAMPLE(a, 100, 1500); SAMPLE(b, -300, 300);
  REQUIRES(0 < h && 0 < w && 0 < a);
  c.set_tension_horizontal(h);
  c.set_weight_unit(w);
  c.set_spacing_endpoints(Vector2d(a, b));
}
