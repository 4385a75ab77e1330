// Contract of the planar catenary for its callers (proved by the K_contract_catenary2d_ functions).
// The curve enters as arbitrary functions of tension, weight and spacing, restricted by what is proved here:
// it joins its supports, its forces balance, its queries agree with each other.
#ifndef CATENARY_CONTRACT_H_
#define CATENARY_CONTRACT_H_
#include "vector_contract.h"
#include "models/transmissionline/catenary.h"

template <class P> struct CatenarySpec {
  P p;
  double X(double s, bool shifted) const {
    const double x = s == 0 ? 0 : s == 1 ? p.a : p.Xs(s);
    return shifted ? x : x + p.X0();
  }
  double Y(double s, bool shifted) const {
    const double y = s == 0 ? 0 : s == 1 ? p.b : p.Ys(s);
    return shifted ? y : y + p.Y0();
  }
  double ChordY(double s, bool shifted) const {
    const double y = X(s, true) * p.b / p.a;
    return shifted ? y : y + p.Y0();
  }
  double Sag(double s) const { return ChordY(s, true) - Y(s, true); }
  double V(double s) const { return p.V0() + p.w * s * p.L(); }
  double T(double s) const { return std::sqrt(p.h * p.h + V(s) * V(s)); }
  double Max() const { return p.b <= 0 ? T(0) : T(1); }
  double Slack() const { return p.L() - std::sqrt(p.a * p.a + p.b * p.b); }
  Vector2d Tangent(double s, AxisDirectionType e) const {
    if (e == AxisDirectionType::kNegative) return Vector2d(-p.h / T(s), -V(s) / T(s));
    return Vector2d(p.h / T(s), V(s) / T(s));
  }
  Vector2d Force(double s, AxisDirectionType e) const {
    if (e == AxisDirectionType::kNegative) return Vector2d(-p.h, -V(s));
    return Vector2d(p.h, V(s));
  }
};
// the curve of a real object
struct RealCurve {
  double h, w, a, b;
  const Catenary2d* c;
  double X0() const { return c->Coordinate(0, false).x; }
  double Y0() const { return c->Coordinate(0, false).y; }
  double Xs(double s) const { return c->Coordinate(s, true).x; }
  double Ys(double s) const { return c->Coordinate(s, true).y; }
  double V0() const { return c->Tension(0, AxisDirectionType::kPositive).y(); }
  double L() const { return c->Length(); }
};
static void MakeCurve(Catenary2d& c, double h, double w, double a, double b) {
  c.set_tension_horizontal(h); c.set_weight_unit(w); c.set_spacing_endpoints(Vector2d(a, b));
}
static void SampleCurve(double& h, double& w, double& a, double& b) {
  SAMPLE(h, 500, 20000); SAMPLE(w, 0.3, 6); SAMPLE(a, 100, 1500); SAMPLE(b, -300, 300);
}
CONTRACT K_contract_catenary2d_queries(double h, double w, double a, double b, double s, AxisDirectionType e) {
  SampleCurve(h, w, a, b); SAMPLE(s, 0, 1);
  REQUIRES(0 < h && 0 < w && 0 < a);
  REQUIRES(e == AxisDirectionType::kPositive || e == AxisDirectionType::kNegative);
  Catenary2d c; MakeCurve(c, h, w, a, b);
  CatenarySpec<RealCurve> k; k.p.h = h; k.p.w = w; k.p.a = a; k.p.b = b; k.p.c = &c;
  ENSURES("left end", EQ(c.Coordinate(0, true).x, 0) && EQ(c.Coordinate(0, true).y, 0));
  ENSURES("right end", EQ(c.Coordinate(1, true).x, a) && EQ(c.Coordinate(1, true).y, b));
  ENSURES("shifted curve x", EQ(c.Coordinate(s, false).x, c.Coordinate(s, true).x + k.p.X0()));
  ENSURES("shifted curve y", EQ(c.Coordinate(s, false).y, c.Coordinate(s, true).y + k.p.Y0()));
  ENSURES("chord x", EQ(c.CoordinateChord(s, true).x, c.Coordinate(s, true).x));
  ENSURES("chord y", EQ(c.CoordinateChord(s, true).y, c.Coordinate(s, true).x * b / a));
  ENSURES("unshifted chord x", EQ(c.CoordinateChord(s, false).x, c.Coordinate(s, false).x));
  ENSURES("unshifted chord y", EQ(c.CoordinateChord(s, false).y, c.CoordinateChord(s, true).y + k.p.Y0()));
  ENSURES("sag", EQ(c.Sag(s), c.CoordinateChord(s, true).y - c.Coordinate(s, true).y));
  ENSURES("force x", EQ(c.Tension(s, e).x(), k.Force(s, e).x()));
  ENSURES("force y", EQ(c.Tension(s, e).y(), k.Force(s, e).y()));
  ENSURES("tension", EQ(c.Tension(s) * c.Tension(s), h * h + k.V(s) * k.V(s)) && 0 <= c.Tension(s));
  ENSURES("tangent x", EQ(c.TangentVector(s, e).x() * c.Tension(s), c.Tension(s, e).x()));
  ENSURES("tangent y", EQ(c.TangentVector(s, e).y() * c.Tension(s), c.Tension(s, e).y()));
  ENSURES("tangent angle", EQ(c.TangentAngle(s, AxisDirectionType::kPositive), std::atan(k.V(s) / h) * 180 / SPEC_PI));
  ENSURES("reverse tangent angle", EQ(c.TangentAngle(s, AxisDirectionType::kNegative), -c.TangentAngle(s, AxisDirectionType::kPositive)));
  ENSURES("constant", EQ(c.Constant(), h / w));
  ENSURES("largest tension", EQ(c.TensionMax(), b <= 0 ? c.Tension(0) : c.Tension(1)));
  ENSURES("slack", EQ(c.LengthSlack(), k.Slack()));
  ENSURES("length is positive", LT(0, c.Length()));
  ENSURES("sag of the span", EQ(c.Sag(), c.Sag(c.PositionFractionSagPoint())));
}
// every query depends on the current settings only, valid or not
static void SameCurves(const Catenary2d& c, const Catenary2d& d, double s, double angle, bool shifted, AxisDirectionType e) {
  const Point2d<double> p = c.Coordinate(s, shifted), q = d.Coordinate(s, shifted), u = c.CoordinateChord(s, shifted), v = d.CoordinateChord(s, shifted);
  ENSURES("coordinate", EQ(p.x, q.x) && EQ(p.y, q.y));
  ENSURES("chord coordinate", EQ(u.x, v.x) && EQ(u.y, v.y));
  ENSURES("constant", EQ(c.Constant(), d.Constant()));
  ENSURES("length", EQ(c.Length(), d.Length()));
  ENSURES("slack", EQ(c.LengthSlack(), d.LengthSlack()));
  ENSURES("position fraction", EQ(c.PositionFraction(angle), d.PositionFraction(angle)));
  ENSURES("low point", EQ(c.PositionFractionOrigin(), d.PositionFractionOrigin()));
  ENSURES("sag point", EQ(c.PositionFractionSagPoint(), d.PositionFractionSagPoint()));
  ENSURES("sag", EQ(c.Sag(), d.Sag()));
  ENSURES("sag at a position", EQ(c.Sag(s), d.Sag(s)));
  const Vector2d f = c.Tension(s, e), g = d.Tension(s, e), k = c.TangentVector(s, e), l = d.TangentVector(s, e);
  ENSURES("tension vector", EQ(f.x(), g.x()) && EQ(f.y(), g.y()));
  ENSURES("tangent vector", EQ(k.x(), l.x()) && EQ(k.y(), l.y()));
  ENSURES("tangent angle", EQ(c.TangentAngle(s, e), d.TangentAngle(s, e)));
  ENSURES("tension", EQ(c.Tension(s), d.Tension(s)));
  ENSURES("average", EQ(c.TensionAverage(10), d.TensionAverage(10)));
  ENSURES("largest tension", EQ(c.TensionMax(), d.TensionMax()));
}
CONTRACT K_contract_catenary2d_history(double h, double w, double a, double b, double h0, double w0, double a0, double b0,
                                       double s, double angle, bool shifted, AxisDirectionType e, bool q0, bool q1, bool q2) {
  SampleCurve(h, w, a, b); SampleCurve(h0, w0, a0, b0); SAMPLE(s, 0, 1); SAMPLE(angle, -30, 30);
  REQUIRES(e == AxisDirectionType::kPositive || e == AxisDirectionType::kNegative);
  Catenary2d c, d;
  MakeCurve(d, h, w, a, b);
  MakeCurve(c, h0, w0, a0, b0);
  if (q0) c.Length();
  c.set_tension_horizontal(h);
  if (q1) c.Length();
  c.set_spacing_endpoints(Vector2d(a, b));
  if (q2) c.Length();
  c.set_weight_unit(w);
  SameCurves(c, d, s, angle, shifted, e);
}
CONTRACT K_contract_catenary2d_order(double h, double w, double a, double b, double w0, double b0, double s, double angle,
                                     bool shifted, AxisDirectionType e, int n) {
  SampleCurve(h, w, a, b); SampleCurve(h, w0, a, b0); SAMPLE_INT(n, 0, 20);
  SAMPLE(s, 0, 1); SAMPLE(angle, -30, 30);
  REQUIRES(0 <= n);
  REQUIRES(e == AxisDirectionType::kPositive || e == AxisDirectionType::kNegative);
  Catenary2d c, d;
  MakeCurve(d, h, w, a, b);
  MakeCurve(c, h, w0, a, b0);
  c.Length();
  c.set_weight_unit(w);
  c.Length();
  c.set_spacing_endpoints(Vector2d(a, b));
  ENSURES("average over any number of points", EQ(c.TensionAverage(n), d.TensionAverage(n)));
  SameCurves(c, d, s, angle, shifted, e);
}
CONTRACT K_contract_catenary2d_tension_last(double h, double w, double a, double b, double h0, double s, double angle, bool shifted, AxisDirectionType e) {
  SampleCurve(h, w, a, b); SampleCurve(h0, w, a, b); SAMPLE(s, 0, 1); SAMPLE(angle, -30, 30);
  REQUIRES(e == AxisDirectionType::kPositive || e == AxisDirectionType::kNegative);
  Catenary2d c, d;
  MakeCurve(d, h, w, a, b);
  MakeCurve(c, h0, w, a, b);
  c.Length();
  c.set_tension_horizontal(h);
  SameCurves(c, d, s, angle, shifted, e);
}
#ifdef OTLS_SYMBOLIC
// the curve of an object known by its settings only
struct AnyCurve {
  double h, w, a, b;
  double X0() const { return __vc_uf("catenary.x0", h, w, a, b); }
  double Y0() const { return __vc_uf("catenary.y0", h, w, a, b); }
  double Xs(double s) const { return __vc_uf("catenary.x", h, w, a, b, s); }
  double Ys(double s) const { return __vc_uf("catenary.y", h, w, a, b, s); }
  double V0() const { return __vc_uf("catenary.v0", h, w, a, b); }
  double L() const { return __vc_uf("catenary.length", h, w, a, b); }
};
static CatenarySpec<AnyCurve> Of(const Catenary2d* c) {
  CatenarySpec<AnyCurve> k;
  k.p.h = c->tension_horizontal(); k.p.w = c->weight_unit();
  k.p.a = c->spacing_endpoints().x(); k.p.b = c->spacing_endpoints().y();
  return k;
}
static double Uf(const char* n, const Catenary2d* c, double x, double y = 0) {
  const CatenarySpec<AnyCurve> k = Of(c);
  return __vc_uf(n, k.p.h, k.p.w, k.p.a, k.p.b, x, y);
}
#ifdef CATENARY2D_OPAQUE  // nothing but: a function of the settings
static bool Hangs(const Catenary2d*) { return false; }
#else
static bool Hangs(const Catenary2d* c) {
  LEMMA("the planar catenary is valid", 0 < c->tension_horizontal() && 0 < c->weight_unit() && 0 < c->spacing_endpoints().x());
  return true;
}
#endif
static Point2d<double> Ufp(const char* x, const char* y, const Catenary2d* c, double s, bool shifted) {
  Point2d<double> p; p.x = Uf(x, c, s, shifted); p.y = Uf(y, c, s, shifted);
  return p;
}
static double Dir(const AxisDirectionType& e) { return static_cast<double>(static_cast<int>(e)); }
extern "C" {
double S__ZNK10Catenary2d8ConstantEv(const Catenary2d* c) { if (!Hangs(c)) return Uf("bad.constant", c, 0); return c->tension_horizontal() / c->weight_unit(); }
Point2d<double> S__ZNK10Catenary2d10CoordinateERKdRKb(const Catenary2d* c, const double& s, const bool& shifted) {
 if (!Hangs(c)) return Ufp("bad.x", "bad.y", c, s, shifted);
  const CatenarySpec<AnyCurve> k = Of(c);
  Point2d<double> p; p.x = k.X(s, shifted); p.y = k.Y(s, shifted);
  return p;
}
Point2d<double> S__ZNK10Catenary2d15CoordinateChordERKdRKb(const Catenary2d* c, const double& s, const bool& shifted) {
 if (!Hangs(c)) return Ufp("bad.chord.x", "bad.chord.y", c, s, shifted);
  const CatenarySpec<AnyCurve> k = Of(c);
  Point2d<double> p; p.x = k.X(s, shifted); p.y = k.ChordY(s, shifted);
  return p;
}
double S__ZNK10Catenary2d6LengthEv(const Catenary2d* c) {
 if (!Hangs(c)) return Uf("bad.length", c, 0);
  const double l = Of(c).p.L();
  GUARANTEES(0 < l);
  return l;
}
double S__ZNK10Catenary2d11LengthSlackEv(const Catenary2d* c) { if (!Hangs(c)) return Uf("bad.slack", c, 0); return Of(c).Slack(); }
double S__ZNK10Catenary2d16PositionFractionERKd(const Catenary2d* c, const double& x) { return Uf("catenary.fraction", c, x); }
double S__ZNK10Catenary2d22PositionFractionOriginEv(const Catenary2d* c) { return Uf("catenary.low", c, 0); }
double S__ZNK10Catenary2d24PositionFractionSagPointEv(const Catenary2d* c) { return Uf("catenary.sagpoint", c, 0); }
double S__ZNK10Catenary2d3SagEv(const Catenary2d* c) { if (!Hangs(c)) return Uf("bad.sag", c, 0); return Of(c).Sag(Uf("catenary.sagpoint", c, 0)); }
double S__ZNK10Catenary2d3SagERKd(const Catenary2d* c, const double& s) { if (!Hangs(c)) return Uf("bad.sag.at", c, s); return Of(c).Sag(s); }
double S__ZNK10Catenary2d12TangentAngleERKdRK17AxisDirectionType(const Catenary2d* c, const double& s, const AxisDirectionType& e) {
 if (!Hangs(c)) return Uf("bad.angle", c, s, Dir(e));
  const CatenarySpec<AnyCurve> k = Of(c);
  const double x = std::atan(k.V(s) / k.p.h) * 180 / SPEC_PI;
  return e == AxisDirectionType::kNegative ? -x : x;
}
Vector2d S__ZNK10Catenary2d13TangentVectorERKdRK17AxisDirectionType(const Catenary2d* c, const double& s, const AxisDirectionType& e) {
 if (!Hangs(c)) return Vector2d(Uf("bad.tangent.x", c, s, Dir(e)), Uf("bad.tangent.y", c, s, Dir(e)));
  return Of(c).Tangent(s, e);
}
double S__ZNK10Catenary2d7TensionERKd(const Catenary2d* c, const double& s) { if (!Hangs(c)) return Uf("bad.tension", c, s); return Of(c).T(s); }
Vector2d S__ZNK10Catenary2d7TensionERKdRK17AxisDirectionType(const Catenary2d* c, const double& s, const AxisDirectionType& e) {
 if (!Hangs(c)) return Vector2d(Uf("bad.force.x", c, s, Dir(e)), Uf("bad.force.y", c, s, Dir(e)));
  return Of(c).Force(s, e);
}
double S__ZNK10Catenary2d14TensionAverageERKi(const Catenary2d* c, const int& n) { return Uf("catenary.average", c, n); }
double S__ZNK10Catenary2d10TensionMaxEv(const Catenary2d* c) { if (!Hangs(c)) return Uf("bad.max", c, 0); return Of(c).Max(); }
}
#endif
#endif
