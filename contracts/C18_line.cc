// C18: validation of alignments, line structures and line cables.
#include "verdict.h"
#include "models/transmissionline/alignment.h"
#include "models/transmissionline/line_structure.h"
#include "models/transmissionline/line_cable.h"

CONTRACT K_alignment_messages(const Alignment& a, bool strict) { MESSAGES(a) }
CONTRACT K_line_structure_messages(const LineStructure& s, bool strict) { MESSAGES(s) }
CONTRACT K_alignment_accepts(const Alignment& a, bool strict) {
  const std::list<AlignmentPoint>& points = *a.points();
  const int n = points.size();
  REQUIRES_ALL(i, 0, n, NTH(points, i).Validate(strict, nullptr));
  REQUIRES_ALL(j, 1, n, NTH(points, j - 1).station <= NTH(points, j).station);
  VERDICT_ALONE(a, true);
}
CONTRACT K_alignment_point_refused(const Alignment& a, int i, bool strict) {
  const std::list<AlignmentPoint>& points = *a.points();
  const int n = points.size();
  SAMPLE_INT(i, 0, 3);
  REQUIRES(0 <= i && i < n && !NTH(points, i).Validate(strict, nullptr));
  VERDICT_ALONE(a, false);
}
CONTRACT K_alignment_order_refused(const Alignment& a, int i, bool strict) {
  const std::list<AlignmentPoint>& points = *a.points();
  const int n = points.size();
  SAMPLE_INT(i, 0, 3);
  REQUIRES(1 <= i && i < n && NTH(points, i).station < NTH(points, i - 1).station);
  VERDICT_ALONE(a, false);
}
#define LINE_STRUCTURE                                                                                                   \
  const int n = s.hardwares()->size();                                                                                   \
  const bool structure = s.structure() != nullptr && s.structure()->Validate(strict, nullptr);                                     \
  const bool own = structure && 0 <= s.height_adjustment() && -360 <= s.rotation() && s.rotation() <= 360 && 0 <= s.station();
CONTRACT K_line_structure_accepts(const LineStructure& s, bool strict) {
  LINE_STRUCTURE
  REQUIRES(own);
  REQUIRES_ALL(i, 0, n, NTH(*s.hardwares(), i) == nullptr || NTH(*s.hardwares(), i)->Validate(strict, nullptr));
  VERDICT_ALONE(s, true);
}
CONTRACT K_line_structure_own(const LineStructure& s, bool strict) {
  LINE_STRUCTURE
  REQUIRES(!own);
  VERDICT_ALONE(s, false);
}
CONTRACT K_line_structure_hardware(const LineStructure& s, int i, bool strict) {
  LINE_STRUCTURE
  REQUIRES(0 <= i && i < n && NTH(*s.hardwares(), i) != nullptr && !NTH(*s.hardwares(), i)->Validate(strict, nullptr));
  VERDICT_ALONE(s, false);
}
// A connection is complete when its structure holds hardware of the wanted type at the attachment.
static bool Holds(const LineCableConnection& c, Hardware::HardwareType type) {
  return c.line_structure != nullptr && 0 <= c.index_attachment && c.index_attachment < (int)c.line_structure->hardwares()->size()
         && NTH(*c.line_structure->hardwares(), c.index_attachment) != nullptr
         && NTH(*c.line_structure->hardwares(), c.index_attachment)->type == type;
}
#define CONNECTIONS                                                     \
  const std::list<LineCableConnection>& cs = *c.connections();          \
  const int n = cs.size();
#define VERDICT_CONNECTIONS(ok) ENSURES("verdict", c.ValidateConnections(strict, nullptr) == (ok));
CONTRACT K_connections_same(const LineCable& c, bool strict) {
  std::list<ErrorMessage> messages;
  ENSURES("same verdict with messages", c.ValidateConnections(strict, &messages) == c.ValidateConnections(strict, nullptr));
}
CONTRACT K_connections_messages(const LineCable& c, bool strict) {
  std::list<ErrorMessage> messages;
  const bool ok = c.ValidateConnections(strict, &messages);
  ENSURES("a message for a rejection", ok || !messages.empty());
  ENSURES("no message when accepted", !ok || messages.empty());
}
CONTRACT K_connections_accepts(const LineCable& c, bool strict) {
  CONNECTIONS
  REQUIRES(2 <= n && Holds(NTH(cs, 0), Hardware::HardwareType::kDeadEnd) && Holds(NTH(cs, n - 1), Hardware::HardwareType::kDeadEnd));
  REQUIRES_ALL(i, 1, n - 1, Holds(NTH(cs, i), Hardware::HardwareType::kSuspension));
  VERDICT_CONNECTIONS(true)
}
CONTRACT K_connections_few(const LineCable& c, bool strict) {
  CONNECTIONS
  REQUIRES(n < 2);
  VERDICT_CONNECTIONS(false)
}
CONTRACT K_connections_terminal(const LineCable& c, bool strict) {
  CONNECTIONS
  REQUIRES(2 <= n && !(Holds(NTH(cs, 0), Hardware::HardwareType::kDeadEnd) && Holds(NTH(cs, n - 1), Hardware::HardwareType::kDeadEnd)));
  VERDICT_CONNECTIONS(false)
}
CONTRACT K_connections_interior(const LineCable& c, int i, bool strict) {
  CONNECTIONS
  REQUIRES(0 < i && i < n - 1 && !Holds(NTH(cs, i), Hardware::HardwareType::kSuspension));
  VERDICT_CONNECTIONS(false)
}
