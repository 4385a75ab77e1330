// Contract of the planar rotation: callers are checked against it; K_contract_vector2d_rotate proves it of the body.
#ifndef VECTOR_CONTRACT_H_
#define VECTOR_CONTRACT_H_
#include "spec.h"
#include "models/base/vector.h"
static void RotateSpec(Vector2d& v, const double& a) {
  if (a < 0.00005 && -0.00005 < a) return;
  const double x = v.x(), y = v.y(), r = a * SPEC_PI / 180;
  v.set_x(x * std::cos(r) - y * std::sin(r));
  v.set_y(x * std::sin(r) + y * std::cos(r));
}
CONTRACT K_contract_vector2d_rotate(double x, double y, double a) {
  SAMPLE(x, -1000, 1000); SAMPLE(y, -1000, 1000); SAMPLE(a, -720, 720);
  Vector2d v(x, y), w(x, y);
  v.Rotate(a);
  RotateSpec(w, a);
  ENSURES("rotated x", EQ(v.x(), w.x()));
  ENSURES("rotated y", EQ(v.y(), w.y()));
}
static double AngleSpec(const Vector2d& v, bool is_signed) {
  if (v.x() == 0 && v.y() == 0) return -999999;
  if (is_signed) return std::atan2(v.y(), v.x()) * 180 / SPEC_PI;
#ifdef OTLS_SYMBOLIC
  return __vc_polar(v.x(), v.y()) * 180 / SPEC_PI;
#else
  const double a = std::atan2(v.y(), v.x()) * 180 / SPEC_PI;
  return a < 0 ? a + 360 : a;
#endif
}
CONTRACT K_contract_vector2d_angle(double x, double y, bool is_signed) {
  SAMPLE(x, -1000, 1000); SAMPLE(y, -1000, 1000);
  const Vector2d v(x, y);
  ENSURES("at most a full turn", LE(v.Angle(is_signed), 360));
  ENSURES("polar angle", EQ(v.Angle(is_signed), AngleSpec(v, is_signed)));
}
#ifdef OTLS_SYMBOLIC
extern "C" void S__ZN8Vector2d6RotateERKd(Vector2d* self, const double& a) { RotateSpec(*self, a); }
extern "C" double S__ZNK8Vector2d5AngleERKb(const Vector2d* self, const bool& n) {
#ifdef ANGLE_OPAQUE  // only that the angle is a function of the vector
  const double r = __vc_uf("vector.angle", self->x(), self->y(), n ? 1.0 : 0.0);
  GUARANTEES(r <= 360);
  return r;
#else
  return AngleSpec(*self, n);
#endif
}
#endif
#endif
