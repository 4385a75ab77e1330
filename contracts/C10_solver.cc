// C10: the catenary constraint solver: the constant target is met exactly, impossible targets are refused,
// a success is a valid catenary of the given span, and the settings survive.
#include "catenary3d_contract.h"
#include "models/transmissionline/catenary_solver.h"

typedef CatenarySolver::TargetType Target;
static void Make(CatenarySolver& c, double wy, double wz, double x, double z, Target t, double v, double p) {
  c.set_weight_unit(Vector3d(0, wy, wz)); c.set_spacing_endpoints(Vector3d(x, 0, z));
  c.set_type_target(t); c.set_value_target(v); c.set_position_target(p);
}
#define ARGS double wy, double wz, double x, double z, double v, double p
#define SPAN                                                                                                           \
  SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(x, 100, 1500); SAMPLE(z, -300, 300); SAMPLE(v, 10, 5000); SAMPLE(p, 0, 1); \
  REQUIRES(0 <= wy && 0 < wz && 0 < x);
static double Load(double wy, double wz) { return std::sqrt(wy * wy + wz * wz); }
static double Chord(double x, double z) { return std::sqrt(x * x + z * z); }
// the tension the search starts from
static double Least(double wy, double wz, double x, double z) { return Catenary2d::ConstantMinimum(Chord(x, z)) * Load(wy, wz); }
static void Refused(const CatenarySolver& c) {
  ENSURES("no tension", EQ(c.TensionHorizontal(), -999999));
  ENSURES("no span", EQ(c.Catenary().spacing_endpoints().x(), Catenary3d().spacing_endpoints().x()));
  ENSURES("still no tension", EQ(c.TensionHorizontal(), -999999));
}
CONTRACT K_constant(ARGS) {
  SPAN
  REQUIRES(0 < v);
  CatenarySolver c; Make(c, wy, wz, x, z, Target::kConstant, v, p);
  Catenary3d s; s.set_weight_unit(Vector3d(0, wy, wz)); s.set_spacing_endpoints(Vector3d(x, 0, z)); s.set_tension_horizontal(v * Load(wy, wz));
  const double h = c.TensionHorizontal();
  if (s.Validate(false, nullptr)) {
    ENSURES("tension of the requested constant", EQ(h, v * Load(wy, wz)));
    ENSURES("constant", EQ(c.Catenary().Constant(), s.Constant()));
  } else {
    Refused(c);
  }
}
#define SUCCESS(name, type)                                                                                            \
  CONTRACT K_success_##name(ARGS) {                                                                                    \
    SPAN                                                                                                               \
    REQUIRES(0 < v);                                                                                                   \
    CatenarySolver c; Make(c, wy, wz, x, z, Target::type, v, p);                                                       \
    const double h = c.TensionHorizontal();                                                                            \
    const Catenary3d s = c.Catenary();                                                                                 \
    if (h != -999999) {                                                                                                \
      ENSURES("a valid span", s.Validate(false, nullptr));                                                             \
      ENSURES("its tension", EQ(s.tension_horizontal(), h));                                                           \
      ENSURES("its load", EQ(s.weight_unit().x(), 0) && EQ(s.weight_unit().y(), wy) && EQ(s.weight_unit().z(), wz));   \
      ENSURES("its spacing", EQ(s.spacing_endpoints().x(), x) && EQ(s.spacing_endpoints().y(), 0) && EQ(s.spacing_endpoints().z(), z)); \
    }                                                                                                                  \
    ENSURES("same answer", EQ(c.TensionHorizontal(), h));                                                              \
    ENSURES("target kept", c.type_target() == Target::type && EQ(c.value_target(), v) && EQ(c.position_target(), p));  \
    ENSURES("load kept", EQ(c.weight_unit().x(), 0) && EQ(c.weight_unit().y(), wy) && EQ(c.weight_unit().z(), wz));    \
    ENSURES("spacing kept", EQ(c.spacing_endpoints().x(), x) && EQ(c.spacing_endpoints().y(), 0) && EQ(c.spacing_endpoints().z(), z)); \
  }
SUCCESS(constant, kConstant)
SUCCESS(length, kLength)
SUCCESS(sag, kSag)
SUCCESS(tension, kTension)
CONTRACT K_short_length(ARGS) {
  SPAN
  REQUIRES(v <= Chord(x, z));
  CatenarySolver c; Make(c, wy, wz, x, z, Target::kLength, v, p);
  Refused(c);
}
CONTRACT K_long_length(ARGS) {
  SPAN
  Catenary3d s; s.set_weight_unit(Vector3d(0, wy, wz)); s.set_spacing_endpoints(Vector3d(x, 0, z)); s.set_tension_horizontal(Least(wy, wz, x, z));
  REQUIRES(s.Length() < v);
  CatenarySolver c; Make(c, wy, wz, x, z, Target::kLength, v, p);
  Refused(c);
}
CONTRACT K_deep_sag(ARGS, bool anywhere) {
  SPAN
  REQUIRES(0 <= p && p <= 1);
  Catenary3d s; s.set_weight_unit(Vector3d(0, wy, wz)); s.set_spacing_endpoints(Vector3d(x, 0, z)); s.set_tension_horizontal(Least(wy, wz, x, z));
  REQUIRES((anywhere ? s.Sag() : s.Sag(p)) < v);
  CatenarySolver c; Make(c, wy, wz, x, z, Target::kSag, v, anywhere ? -1 : p);
  Refused(c);
}
CONTRACT K_low_tension(ARGS, bool anywhere) {
  SPAN
  REQUIRES(0 <= p && p <= 1);
  Catenary3d s; s.set_weight_unit(Vector3d(0, wy, wz)); s.set_spacing_endpoints(Vector3d(x, 0, z)); s.set_tension_horizontal(Least(wy, wz, x, z));
  REQUIRES(v < (anywhere ? s.TensionMax() : s.Tension(p)));
  CatenarySolver c; Make(c, wy, wz, x, z, Target::kTension, v, anywhere ? -1 : p);
  Refused(c);
}
CONTRACT K_no_target(ARGS) {
  SPAN
  CatenarySolver c; Make(c, wy, wz, x, z, Target::kNull, v, p);
  Refused(c);
}
