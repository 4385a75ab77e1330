// C02: planar and spatial vectors: magnitude is the Euclidean norm, the reported angle is the polar
// angle of the vector, rotation is the rotation matrix of the plane, scaling multiplies components.
#include "spec.h"
#include "models/base/vector.h"

static void In(double& x) { SAMPLE(x, -1000, 1000); }

CONTRACT K_magnitude(double x, double y, double z, double k) {
  In(x); In(y); In(z); SAMPLE(k, -10, 10);
  Vector2d v(x, y);
  ENSURES("2d norm", EQ(v.Magnitude() * v.Magnitude(), x * x + y * y));
  ENSURES("2d not negative", 0 <= v.Magnitude());
  v.Scale(k);
  ENSURES("2d scaled x", EQ(v.x(), k * x));
  ENSURES("2d scaled y", EQ(v.y(), k * y));
  Vector3d w(x, y, z);
  ENSURES("3d norm", EQ(w.Magnitude() * w.Magnitude(), x * x + y * y + z * z));
  ENSURES("3d not negative", 0 <= w.Magnitude());
  w.Scale(k);
  ENSURES("3d scaled x", EQ(w.x(), k * x));
  ENSURES("3d scaled y", EQ(w.y(), k * y));
  ENSURES("3d scaled z", EQ(w.z(), k * z));
}
// the angle recovers the direction, in either range
CONTRACT K_angle(double x, double y) {
  In(x); In(y);
  REQUIRES(x != 0 || y != 0);
  const Vector2d v(x, y);
  const double a = v.Angle(false), b = v.Angle(true), m = v.Magnitude();
  ENSURES("not negative", 0 <= a && a < 360);
  ENSURES("symmetric range", -180 < b && b <= 180);
  ENSURES("x of the polar form", EQ(m * std::cos(a * SPEC_PI / 180), x));
  ENSURES("y of the polar form", EQ(m * std::sin(a * SPEC_PI / 180), y));
  ENSURES("x of the signed polar form", EQ(m * std::cos(b * SPEC_PI / 180), x));
  ENSURES("y of the signed polar form", EQ(m * std::sin(b * SPEC_PI / 180), y));
  ENSURES("default is the positive range", EQ(v.Angle(), a));
}
CONTRACT K_zero() {
  const Vector2d v(0, 0);
  ENSURES("no angle", EQ(v.Angle(false), -999999));
  ENSURES("no angle, signed", EQ(v.Angle(true), -999999));
}
// rotation of every vector, including the zero vector, by every angle
CONTRACT K_rotate(double x, double y, double a) {
  In(x); In(y); SAMPLE(a, -720, 720);
  Vector2d v(x, y);
  v.Rotate(a);
  if (a >= 0.00005 || a <= -0.00005) {
    const double r = a * SPEC_PI / 180;
    ENSURES("x", EQ(v.x(), x * std::cos(r) - y * std::sin(r)));
    ENSURES("y", EQ(v.y(), x * std::sin(r) + y * std::cos(r)));
  } else {
    ENSURES("x kept", EQ(v.x(), x));
    ENSURES("y kept", EQ(v.y(), y));
  }
}
CONTRACT K_rotate_keeps_length(double x, double y, double a) {
  In(x); In(y); SAMPLE(a, -720, 720);
  Vector2d v(x, y);
  v.Rotate(a);
  ENSURES("length kept", EQ(v.Magnitude(), Vector2d(x, y).Magnitude()));
}
// spatial vectors: the plane's first axis turns toward its second, the third component stays
static void Pick(Plane2dType p, double x, double y, double z, double& i, double& j, double& k) {
  if (p == Plane2dType::kXy) { i = x; j = y; k = z; }
  else if (p == Plane2dType::kXz) { i = x; j = z; k = y; }
  else if (p == Plane2dType::kYx) { i = y; j = x; k = z; }
  else if (p == Plane2dType::kYz) { i = y; j = z; k = x; }
  else if (p == Plane2dType::kZx) { i = z; j = x; k = y; }
  else { i = z; j = y; k = x; }
}
CONTRACT K_rotate3d(double x, double y, double z, Plane2dType p, double a) {
  In(x); In(y); In(z); SAMPLE(a, -720, 720);
  REQUIRES(p != Plane2dType::kNull);
  Vector3d v(x, y, z);
  v.Rotate(p, a);
  double i, j, k, i2, j2, k2;
  Pick(p, x, y, z, i, j, k);
  Pick(p, v.x(), v.y(), v.z(), i2, j2, k2);
  ENSURES("out of plane component kept", EQ(k2, k));
  if (a >= 0.00005 || a <= -0.00005) {
    const double r = a * SPEC_PI / 180;
    ENSURES("first axis", EQ(i2, i * std::cos(r) - j * std::sin(r)));
    ENSURES("second axis", EQ(j2, i * std::sin(r) + j * std::cos(r)));
  } else {
    ENSURES("first axis kept", EQ(i2, i));
    ENSURES("second axis kept", EQ(j2, j));
  }
}
CONTRACT K_angle3d(double x, double y, double z, Plane2dType p, bool neg) {
  In(x); In(y); In(z);
  REQUIRES(p != Plane2dType::kNull);
  double i, j, k;
  Pick(p, x, y, z, i, j, k);
  ENSURES("angle of the projection", EQ(Vector3d(x, y, z).Angle(p, neg), Vector2d(i, j).Angle(neg)));
}
