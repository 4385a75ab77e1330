// Contract of the spatial catenary for its callers: every query is a function of the current settings
// (the K_contract_catenary3d_ functions), with the facts proved here and in C05.
#ifndef CATENARY3D_CONTRACT_H_
#define CATENARY3D_CONTRACT_H_
#define CATENARY2D_OPAQUE
#include "catenary_contract.h"
#include "models/transmissionline/catenary.h"

struct Span {
  double h; Vector3d w, a; AxisDirectionType t;
  Span() { h = 0; t = AxisDirectionType::kPositive; }
};
static void ApplySpan(Catenary3d& c, const Span& p) {
  c.set_tension_horizontal(p.h); c.set_weight_unit(p.w); c.set_spacing_endpoints(p.a); c.set_direction_transverse(p.t);
}
static Span AnySpan(double& h, double& wy, double& wz, double& x, double& z, AxisDirectionType t) {
  SAMPLE(h, 500, 20000); SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(x, 100, 1500); SAMPLE(z, -300, 300);
  REQUIRES(t == AxisDirectionType::kPositive || t == AxisDirectionType::kNegative);
  Span p; p.h = h; p.w = Vector3d(0, wy, wz); p.a = Vector3d(x, 0, z); p.t = t;
  return p;
}
static void AskAll(const Catenary3d& c) { c.Length(); c.SwingAngle(); }
static void SameSpans(const Catenary3d& c, const Catenary3d& d, double s, AxisDirectionType e) {
  ENSURES("constant", EQ(c.Constant(), d.Constant()));
  ENSURES("length", EQ(c.Length(), d.Length()));
  ENSURES("slack", EQ(c.LengthSlack(), d.LengthSlack()));
  ENSURES("low point", EQ(c.PositionFractionOrigin(), d.PositionFractionOrigin()));
  ENSURES("sag point", EQ(c.PositionFractionSagPoint(), d.PositionFractionSagPoint()));
  ENSURES("sag", EQ(c.Sag(), d.Sag()));
  ENSURES("sag at a position", EQ(c.Sag(s), d.Sag(s)));
  ENSURES("swing", EQ(c.SwingAngle(), d.SwingAngle()));
  ENSURES("tension", EQ(c.Tension(s), d.Tension(s)));
  ENSURES("average tension", EQ(c.TensionAverage(10), d.TensionAverage(10)));
  ENSURES("largest tension", EQ(c.TensionMax(), d.TensionMax()));
  const Point3d<double> p = c.Coordinate(s), q = d.Coordinate(s), u = c.CoordinateChord(s), v = d.CoordinateChord(s);
  ENSURES("coordinate", EQ(p.x, q.x) && EQ(p.y, q.y) && EQ(p.z, q.z));
  ENSURES("chord coordinate", EQ(u.x, v.x) && EQ(u.y, v.y) && EQ(u.z, v.z));
  const Vector3d f = c.Tension(s, e), g = d.Tension(s, e), k = c.TangentVector(s, e), l = d.TangentVector(s, e);
  ENSURES("tension vector", EQ(f.x(), g.x()) && EQ(f.y(), g.y()) && EQ(f.z(), g.z()));
  ENSURES("tangent vector", EQ(k.x(), l.x()) && EQ(k.y(), l.y()) && EQ(k.z(), l.z()));
  ENSURES("transverse tangent angle", EQ(c.TangentAngleTransverse(s, e), d.TangentAngleTransverse(s, e)));
  ENSURES("vertical tangent angle", EQ(c.TangentAngleVertical(s, e), d.TangentAngleVertical(s, e)));
  ENSURES("verdict", c.Validate(e == AxisDirectionType::kPositive, nullptr) == d.Validate(e == AxisDirectionType::kPositive, nullptr));
}
#define SPAN3D_CHANGE(name, change)                                                                                    \
  CONTRACT K_contract_catenary3d_##name(double h, double wy, double wz, double x, double z, AxisDirectionType t,        \
                                       double v, double u, AxisDirectionType d, double s, AxisDirectionType e, bool asked) { \
    Span p = AnySpan(h, wy, wz, x, z, t);                                                                              \
    SAMPLE(v, 0.5, 3); SAMPLE(u, 0.5, 3); SAMPLE(s, 0, 1);                                                             \
    REQUIRES(d == AxisDirectionType::kPositive || d == AxisDirectionType::kNegative);                                  \
    REQUIRES(e == AxisDirectionType::kPositive || e == AxisDirectionType::kNegative);                                  \
    Catenary3d c, f; ApplySpan(c, p);                                                                                  \
    if (asked) AskAll(c);                                                                                              \
    change;                                                                                                            \
    ApplySpan(f, p);                                                                                                   \
    SameSpans(c, f, s, e);                                                                                             \
  }
SPAN3D_CHANGE(tension, p.h = v * 1000; c.set_tension_horizontal(p.h))
SPAN3D_CHANGE(weight, p.w = Vector3d(0, u, v); c.set_weight_unit(p.w))
SPAN3D_CHANGE(spacing, p.a = Vector3d(v * 300, 0, u * 100); c.set_spacing_endpoints(p.a))
SPAN3D_CHANGE(direction, p.t = d; c.set_direction_transverse(p.t))
CONTRACT K_contract_catenary3d_messages(const Catenary3d& c, bool warn) {
  const bool ok = c.Validate(warn, nullptr);
  std::list<ErrorMessage> messages;
  ENSURES("same verdict with messages", c.Validate(warn, &messages) == ok);
  ENSURES("a message for a rejection", messages.empty() == ok);
}
#ifdef OTLS_SYMBOLIC
static double Uf3(const char* n, const Catenary3d* c, double s, double e) {
  return __vc_uf(n, c->tension_horizontal(), c->weight_unit().x(), c->weight_unit().y(), c->weight_unit().z(),
                 c->spacing_endpoints().x(), c->spacing_endpoints().y(), c->spacing_endpoints().z(),
                 static_cast<double>(static_cast<int>(c->direction_transverse())), s, e);
}
static bool Hangs(const Catenary3d* c) {
  return 0 < c->tension_horizontal() && 0 <= c->weight_unit().y() && 0 < c->weight_unit().z() && 0 < c->spacing_endpoints().x()
      && c->weight_unit().x() == 0 && c->spacing_endpoints().y() == 0;
}
extern "C" {
bool S__ZNK10Catenary3d8ValidateERKbPNSt7__cxx114listI12ErrorMessageSaIS4_EEE(const Catenary3d* c, const bool& warn, std::list<ErrorMessage>* messages) {
  const bool ok = Uf3("span.valid", c, warn ? 1 : 0, 0) != 0;
  if (messages != nullptr && !ok) messages->push_back(ErrorMessage());
  return ok;
}
double S__ZNK10Catenary3d8ConstantEv(const Catenary3d* c) { return Uf3("span.constant", c, 0, 0); }
double S__ZNK10Catenary3d6LengthEv(const Catenary3d* c) { return Uf3("span.length", c, 0, 0); }
double S__ZNK10Catenary3d11LengthSlackEv(const Catenary3d* c) { return Uf3("span.slack", c, 0, 0); }
double S__ZNK10Catenary3d22PositionFractionOriginEv(const Catenary3d* c) { return Uf3("span.low", c, 0, 0); }
double S__ZNK10Catenary3d24PositionFractionSagPointEv(const Catenary3d* c) { return Uf3("span.sagpoint", c, 0, 0); }
double S__ZNK10Catenary3d3SagEv(const Catenary3d* c) { return Uf3("span.sagmax", c, 0, 0); }
double S__ZNK10Catenary3d3SagERKd(const Catenary3d* c, const double& s) { return Uf3("span.sag", c, s, 0); }
double S__ZNK10Catenary3d10SwingAngleEv(const Catenary3d* c) { return Uf3("span.swing", c, 0, 0); }
double S__ZNK10Catenary3d22TangentAngleTransverseERKdRK17AxisDirectionType(const Catenary3d* c, const double& s, const AxisDirectionType& e) {
  return Uf3("span.transverse", c, s, Dir(e));
}
double S__ZNK10Catenary3d20TangentAngleVerticalERKdRK17AxisDirectionType(const Catenary3d* c, const double& s, const AxisDirectionType& e) {
  return Uf3("span.vertical", c, s, Dir(e));
}
Point3d<double> S__ZNK10Catenary3d10CoordinateERKd(const Catenary3d* c, const double& s) {
  Point3d<double> p; p.x = Uf3("span.x", c, s, 0); p.y = Uf3("span.y", c, s, 0); p.z = Uf3("span.z", c, s, 0);
  return p;
}
Point3d<double> S__ZNK10Catenary3d15CoordinateChordERKd(const Catenary3d* c, const double& s) {
  Point3d<double> p; p.x = Uf3("chord.x", c, s, 0); p.y = Uf3("chord.y", c, s, 0); p.z = Uf3("chord.z", c, s, 0);
  return p;
}
Vector3d S__ZNK10Catenary3d13TangentVectorERKdRK17AxisDirectionType(const Catenary3d* c, const double& s, const AxisDirectionType& e) {
  return Vector3d(Uf3("tangent.x", c, s, Dir(e)), Uf3("tangent.y", c, s, Dir(e)), Uf3("tangent.z", c, s, Dir(e)));
}
double S__ZNK10Catenary3d7TensionERKd(const Catenary3d* c, const double& s) { return Uf3("span.tension", c, s, 0); }
Vector3d S__ZNK10Catenary3d7TensionERKdRK17AxisDirectionType(const Catenary3d* c, const double& s, const AxisDirectionType& e) {
  return Vector3d(Uf3("force.x", c, s, Dir(e)), Uf3("force.y", c, s, Dir(e)), Uf3("force.z", c, s, Dir(e)));
}
double S__ZNK10Catenary3d14TensionAverageERKi(const Catenary3d* c, const int& n) { return Uf3("span.average", c, n, 0); }
double S__ZNK10Catenary3d10TensionMaxEv(const Catenary3d* c) { return Uf3("span.max", c, 0, 0); }
}
#endif
#endif
