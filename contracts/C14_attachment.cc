// C14: the attachment equilibrium solver is a function of its current settings.
#include "catenary3d_contract.h"
#include "models/transmissionline/cable_attachment_equilibrium_solver.h"

struct Set {
  const Catenary3d* back; const Catenary3d* ahead; double angle, hang; AxisDirectionType t;
};
static void Apply(CableAttachmentEquilibriumSolver& s, const Set& g) {
  s.set_catenary_back(g.back); s.set_catenary_ahead(g.ahead); s.set_angle_catenaries(g.angle); s.set_angle_hardware(g.hang);
  s.set_direction_catenaries(g.t);
}
static void Same(const CableAttachmentEquilibriumSolver& c, const CableAttachmentEquilibriumSolver& d) {
  ENSURES("equilibrium angle", EQ(c.AngleEquilibrium(), d.AngleEquilibrium()));
  ENSURES("imbalance", EQ(c.TensionImbalance(), d.TensionImbalance()));
  ENSURES("asked again", EQ(c.AngleEquilibrium(), d.AngleEquilibrium()));
}
#define CHANGE(name, change)                                                                                           \
  CONTRACT K_attachment_##name(double h, double wy, double wz, double x, double z, double h2, double wy2, double wz2, double x2, double z2, \
                               double angle, double hang, AxisDirectionType t, double angle2, double hang2, AxisDirectionType t2, \
                               bool asked, bool asked2) {                                                              \
    SAMPLE(h, 500, 20000); SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(x, 100, 1500); SAMPLE(z, -300, 300);           \
    SAMPLE(h2, 500, 20000); SAMPLE(wy2, 0, 4); SAMPLE(wz2, 0.3, 6); SAMPLE(x2, 100, 1500); SAMPLE(z2, -300, 300);      \
    SAMPLE(angle, 90, 180); SAMPLE(hang, 0, 180); SAMPLE(angle2, 90, 180); SAMPLE(hang2, 0, 180);                      \
    REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);                                  \
    REQUIRES(t2 == AxisDirectionType::kPositive || t2 == AxisDirectionType::kNegative);                                \
    Catenary3d a, b;                                                                                                   \
    a.set_tension_horizontal(h); a.set_weight_unit(Vector3d(0, wy, wz)); a.set_spacing_endpoints(Vector3d(x, 0, z));   \
    b.set_tension_horizontal(h2); b.set_weight_unit(Vector3d(0, wy2, wz2)); b.set_spacing_endpoints(Vector3d(x2, 0, z2)); \
    Set g; g.back = &a; g.ahead = &a; g.angle = angle; g.hang = hang; g.t = t;                                         \
    CableAttachmentEquilibriumSolver c, d; Apply(c, g);                                                                \
    if (asked) c.AngleEquilibrium();                                                                                   \
    if (asked2) c.TensionImbalance();                                                                                  \
    change;                                                                                                            \
    Apply(d, g);                                                                                                       \
    Same(c, d);                                                                                                        \
  }
CHANGE(back, g.back = &b; c.set_catenary_back(g.back))
CHANGE(ahead, g.ahead = &b; c.set_catenary_ahead(g.ahead))
CHANGE(angle, g.angle = angle2; c.set_angle_catenaries(angle2))
CHANGE(hang, g.hang = hang2; c.set_angle_hardware(hang2))
CHANGE(direction, g.t = t2; c.set_direction_catenaries(t2))
