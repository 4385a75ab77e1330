// C14: the constraint solver is a function of its current settings; polynomials too.
#include "catenary3d_contract.h"
#include "models/base/polynomial.h"
#include "models/transmissionline/catenary_solver.h"

struct Goal {
  Vector3d w, a; CatenarySolver::TargetType t; double v, p;
  Goal() { t = CatenarySolver::TargetType::kNull; v = 0; p = -1; }
};
static void Apply(CatenarySolver& c, const Goal& g) {
  c.set_weight_unit(g.w); c.set_spacing_endpoints(g.a); c.set_type_target(g.t); c.set_value_target(g.v); c.set_position_target(g.p);
}
static Goal AnyGoal(double wy, double wz, double x, double z, double v, double p) {
  SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(x, 100, 1500); SAMPLE(z, -300, 300); SAMPLE(v, 10, 3000); SAMPLE(p, 0, 1);
  Goal g; g.w = Vector3d(0, wy, wz); g.a = Vector3d(x, 0, z); g.v = v; g.p = p;
  return g;
}
static void Same(const CatenarySolver& c, const CatenarySolver& d) {
  ENSURES("horizontal tension", EQ(c.TensionHorizontal(), d.TensionHorizontal()));
  ENSURES("asked again", EQ(c.TensionHorizontal(), d.TensionHorizontal()));
  const Catenary3d p = c.Catenary(), q = d.Catenary();
  ENSURES("catenary tension", EQ(p.tension_horizontal(), q.tension_horizontal()));
  ENSURES("catenary weight", EQ(p.weight_unit().y(), q.weight_unit().y()) && EQ(p.weight_unit().z(), q.weight_unit().z()));
  ENSURES("catenary spacing", EQ(p.spacing_endpoints().x(), q.spacing_endpoints().x()) && EQ(p.spacing_endpoints().z(), q.spacing_endpoints().z()));
}
#define SOLVER_CHANGE(name, type, change)                                                                               \
  CONTRACT K_solver_##name(double wy, double wz, double x, double z, double v, double p,                                \
                           double wy2, double wz2, double x2, double z2, double v2, double p2, bool asked) {            \
    Goal g = AnyGoal(wy, wz, x, z, v, p);                                                                               \
    const Goal n = AnyGoal(wy2, wz2, x2, z2, v2, p2);                                                                   \
    g.t = CatenarySolver::TargetType::type;                                                                             \
    CatenarySolver c, d; Apply(c, g);                                                                                   \
    if (asked) c.TensionHorizontal();                                                                                   \
    change;                                                                                                             \
    Apply(d, g);                                                                                                        \
    Same(c, d);                                                                                                         \
  }
#define SOLVER_CHANGES(name, type)                                                                                      \
  SOLVER_CHANGE(name##_weight, type, g.w = n.w; c.set_weight_unit(g.w))                                                 \
  SOLVER_CHANGE(name##_spacing, type, g.a = n.a; c.set_spacing_endpoints(g.a))                                          \
  SOLVER_CHANGE(name##_value, type, g.v = n.v; c.set_value_target(g.v))                                                 \
  SOLVER_CHANGE(name##_position, type, g.p = n.p; c.set_position_target(g.p))
SOLVER_CHANGES(constant, kConstant)
SOLVER_CHANGES(length, kLength)
SOLVER_CHANGES(sag, kSag)
SOLVER_CHANGES(tension, kTension)
SOLVER_CHANGE(to_length, kConstant, g.t = CatenarySolver::TargetType::kLength; c.set_type_target(g.t))
SOLVER_CHANGE(to_sag, kLength, g.t = CatenarySolver::TargetType::kSag; c.set_type_target(g.t))
SOLVER_CHANGE(to_tension, kSag, g.t = CatenarySolver::TargetType::kTension; c.set_type_target(g.t))
SOLVER_CHANGE(to_constant, kTension, g.t = CatenarySolver::TargetType::kConstant; c.set_type_target(g.t))
SOLVER_CHANGE(to_none, kConstant, g.t = CatenarySolver::TargetType::kNull; c.set_type_target(g.t))
#define SOLVER_AGAIN(name, type)                                                                                        \
  CONTRACT K_solver_again_##name(double wy, double wz, double x, double z, double v, double p) {                        \
    Goal g = AnyGoal(wy, wz, x, z, v, p);                                                                               \
    g.t = CatenarySolver::TargetType::type;                                                                             \
    CatenarySolver c; Apply(c, g);                                                                                      \
    const double h = c.TensionHorizontal();                                                                             \
    ENSURES("same answer when asked again", EQ(c.TensionHorizontal(), h));                                              \
  }
SOLVER_AGAIN(constant, kConstant)
SOLVER_AGAIN(length, kLength)
SOLVER_AGAIN(sag, kSag)
SOLVER_AGAIN(tension, kTension)
CONTRACT K_polynomial(const std::vector<double>& c, const std::vector<double>& d, double x, bool asked) {
  SAMPLE(x, -3, 3);
  REQUIRES(1 <= c.size() && 1 <= d.size());
  Polynomial p(&c), q(&d);
  if (asked) p.Slope(x);
  p.set_coefficients(&d);
  ENSURES("value", EQ(p.Y(x), q.Y(x)));
  ENSURES("slope", EQ(p.Slope(x), q.Slope(x)));
}
