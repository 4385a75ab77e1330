// C12: a hanging attachment: the resultant of the two cable end tensions, and the imbalance left by the hardware angle.
#include "catenary3d_contract.h"
#include "models/transmissionline/cable_attachment_equilibrium_solver.h"

struct Pull { double x, y, z; };
static bool Turns(double angle) { return 0.00005 <= angle || angle <= -0.00005; }
static Pull Turned(const Vector3d& v, double angle) {
  Pull p; p.x = v.x(); p.y = v.y(); p.z = v.z();
  if (Turns(angle)) {
    const double r = angle * SPEC_PI / 180;
    p.x = v.x() * std::cos(r) - v.y() * std::sin(r);
    p.y = v.x() * std::sin(r) + v.y() * std::cos(r);
  }
  return p;
}
// the cable pulls of both spans, in the axes of the attachment
static Pull Cables(const Catenary3d& back, const Catenary3d& ahead, double angle, AxisDirectionType d) {
  const double r = (180 - angle) / 2;
  const Pull b = Turned(back.Tension(1, AxisDirectionType::kNegative), d == AxisDirectionType::kPositive ? -r : r);
  const Pull a = Turned(ahead.Tension(0, AxisDirectionType::kPositive), d == AxisDirectionType::kPositive ? r : -r);
  Pull p; p.x = b.x + a.x; p.y = b.y + a.y; p.z = b.z + a.z;
  return p;
}
static void Make(CableAttachmentEquilibriumSolver& s, const Catenary3d& back, const Catenary3d& ahead, double angle, double hang, AxisDirectionType d) {
  s.set_catenary_back(&back); s.set_catenary_ahead(&ahead); s.set_angle_catenaries(angle); s.set_angle_hardware(hang);
  s.set_direction_catenaries(d);
}
#define SPANS(c, d)                                                                                                    \
  SAMPLE(h, 500, 20000); SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(x, 100, 1500); SAMPLE(z, -300, 300);             \
  SAMPLE(h2, 500, 20000); SAMPLE(wy2, 0, 4); SAMPLE(wz2, 0.3, 6); SAMPLE(x2, 100, 1500); SAMPLE(z2, -300, 300);        \
  SAMPLE(angle, 90, 180); SAMPLE(hang, 0, 180);                                                                        \
  REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);                                    \
  Catenary3d c, d;                                                                                                     \
  c.set_tension_horizontal(h); c.set_weight_unit(Vector3d(0, wy, wz)); c.set_spacing_endpoints(Vector3d(x, 0, z));     \
  d.set_tension_horizontal(h2); d.set_weight_unit(Vector3d(0, wy2, wz2)); d.set_spacing_endpoints(Vector3d(x2, 0, z2)); \
  REQUIRES(Hang(h, wy, wz, x) && Hang(h2, wy2, wz2, x2));
static bool Hang(double h, double wy, double wz, double x) { return 0 < h && 0 <= wy && 0 < wz && 0 < x; }
#define ARGS double h, double wy, double wz, double x, double z, double h2, double wy2, double wz2, double x2, double z2, double angle, double hang, AxisDirectionType t

CONTRACT K_equilibrium_angle(ARGS) {
  SPANS(back, ahead)
  CableAttachmentEquilibriumSolver s; Make(s, back, ahead, angle, hang, t);
  const Pull p = Cables(back, ahead, angle, t);
  const double e = s.AngleEquilibrium() * SPEC_PI / 180, m = std::sqrt(p.y * p.y + p.z * p.z);
  if (p.y != 0 || p.z != 0) {
    ENSURES("across the line", EQ(m * std::sin(e), t == AxisDirectionType::kPositive ? p.y : -p.y));
    ENSURES("vertically", EQ(m * std::cos(e), p.z));
  }
}
#define IMBALANCE(name, dir)                                                                                           \
  CONTRACT K_imbalance_##name(ARGS) {                                                                                  \
    SPANS(back, ahead)                                                                                                 \
    REQUIRES(t == AxisDirectionType::dir && Turns(hang) && Turns(360 - hang));                                         \
    CableAttachmentEquilibriumSolver s; Make(s, back, ahead, angle, hang, t);                                          \
    const Pull p = Cables(back, ahead, angle, t);                                                                      \
    const double a = (t == AxisDirectionType::kPositive ? hang : 360 - hang) * SPEC_PI / 180, m = std::sqrt(p.x * p.x + p.y * p.y + p.z * p.z);                           \
    const double y = p.y - m * std::sin(a), v = p.z - m * std::cos(a);                                                 \
    ENSURES("what the hardware leaves", EQ(s.TensionImbalance(), std::sqrt(p.x * p.x + y * y + v * v)));               \
    ENSURES("a magnitude", LE(0, s.TensionImbalance()));                                                               \
  }
IMBALANCE(positive, kPositive)
IMBALANCE(negative, kNegative)
#ifdef OTLS_SYMBOLIC
LEMMA_FN L_polar(double y, double z) {
  REQUIRES(y != 0 || z != 0);
  const double m = std::sqrt(y * y + z * z), e = __vc_polar(z, y);
  ENSURES("sine", m * std::sin(e) == y);
  ENSURES("cosine", m * std::cos(e) == z);
}
LEMMA_FN L_pull(double x, double y, double z) {
  REQUIRES(x == 0);
  ENSURES("pull", std::sqrt(x * x + y * y + z * z) == std::sqrt(y * y + z * z));
}
LEMMA_FN L_nothing(double x, double y, double z, double m, double e) {
  REQUIRES(x == 0 && m * std::sin(e) == y && m * std::cos(e) == z);
  LEMMA("nothing left", x * x + (y - m * std::sin(e)) * (y - m * std::sin(e)) + (z - m * std::cos(e)) * (z - m * std::cos(e)) == 0);
  ENSURES("balance", std::sqrt(x * x + (y - m * std::sin(e)) * (y - m * std::sin(e)) + (z - m * std::cos(e)) * (z - m * std::cos(e))) == 0);
}
static void Balance(const Pull& p) {
  L_polar(p.y, p.z); L_pull(p.x, p.y, p.z);
  L_nothing(p.x, p.y, p.z, std::sqrt(p.x * p.x + p.y * p.y + p.z * p.z), __vc_polar(p.z, p.y));
}
#else
static void Balance(const Pull&) {}
#endif
// hanging at the equilibrium angle, only the pull along the line is left
#define BALANCED(name, dir)                                                                                            \
  CONTRACT K_balanced_##name(ARGS) {                                                                                   \
    SPANS(back, ahead)                                                                                                 \
    REQUIRES(t == AxisDirectionType::dir);                                                                             \
    CableAttachmentEquilibriumSolver s; Make(s, back, ahead, angle, hang, t);                                          \
    const Pull p = Cables(back, ahead, angle, t);                                                                      \
    const double e = s.AngleEquilibrium();                                                                             \
    REQUIRES((p.y != 0 || p.z != 0) && Turns(e) && Turns(360 - e));                                                    \
    s.set_angle_hardware(e);                                                                                           \
    REQUIRES(p.x == 0);                                                                                                \
    Balance(p);                                                                                                        \
    ENSURES("balanced", EQT(s.TensionImbalance() / 10000, 0, 1e-6));                                   \
  }
BALANCED(positive, kPositive)
BALANCED(negative, kNegative)
CONTRACT K_settings(ARGS) {
  SPANS(back, ahead)
  CableAttachmentEquilibriumSolver s; Make(s, back, ahead, angle, hang, t);
  s.AngleEquilibrium(); s.TensionImbalance();
  ENSURES("settings kept", EQ(s.angle_catenaries(), angle) && EQ(s.angle_hardware(), hang) && s.direction_catenaries() == t
          && s.catenary_back() == &back && s.catenary_ahead() == &ahead);
}
CONTRACT K_incomplete(ARGS, bool b, bool f) {
  SPANS(back, ahead)
  REQUIRES(!b || !f);
  CableAttachmentEquilibriumSolver s;
  s.set_catenary_back(b ? &back : nullptr); s.set_catenary_ahead(f ? &ahead : nullptr);
  s.set_angle_catenaries(angle); s.set_angle_hardware(hang); s.set_direction_catenaries(t);
  ENSURES("a missing span is reported", s.Validate(true, nullptr) == false);
}
