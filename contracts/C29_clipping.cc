// C29: sag corrections and clipping offsets.
#include "solver_contract.h"
#include "models/transmissionline/line_structure.h"
#include "models/sagging/cable_sag_position_corrector.h"

#include "corrector_input.h"
CONTRACT K_offsets(const LineCable& cable, const Points& points, int i) {
  SAMPLE_INT(i, 0, 5);
  AnyLine(cable, points);
  CableSagPositionCorrector c; c.set_linecable(&cable); c.set_points_attachment(&points);
  const std::vector<Catenary3d>* p = c.CatenariesClipped();
  if (p == nullptr) return;
  UNFOLD_LOOPS
  const std::vector<double> v = c.ClippingOffsets();
  const std::vector<Catenary3d>* q = c.CatenariesPulleyed();
  ENSURES("spans available", q != nullptr);
  ENSURES("one offset per structure", v.size() == points.size() && p->size() + 1 == points.size() && q->size() + 1 == points.size());
  const int n = points.size();
  ENSURES("closes at the dead ends", v[0] == 0 && v[n - 1] == 0);
  if (2 < n) ENSURES("first offset", EQ(v[1], (*p)[0].Length() - (*q)[0].Length()));
  if (3 < n) ENSURES("second offset", EQ(v[2] - v[1], (*p)[1].Length() - (*q)[1].Length()));
  REQUIRES(3 <= i && i < n - 1);
  ENSURES("accumulated difference", EQ(v[i] - v[i - 1], (*p)[i - 1].Length() - (*q)[i - 1].Length()));
}
CONTRACT K_corrections(const LineCable& cable, const Points& points, int i) {
  SAMPLE_INT(i, 0, 5);
  AnyLine(cable, points);
  CableSagPositionCorrector c; c.set_linecable(&cable); c.set_points_attachment(&points);
  const std::vector<Catenary3d>* p = c.CatenariesClipped();
  if (p == nullptr) return;
  const std::vector<double> v = c.SagCorrections();
  const std::vector<Catenary3d>* q = c.CatenariesPulleyed();
  ENSURES("one correction per span", p != nullptr && v.size() + 1 == points.size());
  REQUIRES(0 <= i && i < static_cast<int>(v.size()));
  ENSURES("sag difference", EQ(v[i], (*q)[i].Sag() - (*p)[i].Sag()));
}
CONTRACT K_spans(const LineCable& cable, const Points& points, int i) {
  SAMPLE_INT(i, 0, 5);
  AnyLine(cable, points);
  CableSagPositionCorrector c; c.set_linecable(&cable); c.set_points_attachment(&points);
  const std::vector<Catenary3d>* p = c.CatenariesClipped(); const std::vector<Catenary3d>* q = c.CatenariesPulleyed();
  if (p == nullptr) return;
  REQUIRES(0 <= i && i < static_cast<int>(p->size()));
  const Catenary3d r = cable.CatenaryRulingSpan(), &a = (*p)[i], &b = (*q)[i];
  ENSURES("clipped tension", EQ(a.tension_horizontal(), r.tension_horizontal()));
  ENSURES("clipped load", EQ(a.weight_unit().y(), r.weight_unit().y()) && EQ(a.weight_unit().z(), r.weight_unit().z()));
  ENSURES("clipped spacing", EQ(a.spacing_endpoints().x(), points[i + 1].x - points[i].x) && EQ(a.spacing_endpoints().y(), points[i + 1].y - points[i].y)
      && EQ(a.spacing_endpoints().z(), points[i + 1].z - points[i].z));
  ENSURES("same load in pulleys", EQ(b.weight_unit().y(), a.weight_unit().y()) && EQ(b.weight_unit().z(), a.weight_unit().z()));
  ENSURES("same spacing in pulleys", EQ(b.spacing_endpoints().x(), a.spacing_endpoints().x()) && EQ(b.spacing_endpoints().y(), a.spacing_endpoints().y())
      && EQ(b.spacing_endpoints().z(), a.spacing_endpoints().z()));
}
