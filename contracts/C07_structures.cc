// C07: structures of a line and connections of a line cable stay sorted by station.
#include "spec.h"
#include "models/transmissionline/transmission_line.h"

typedef std::list<LineStructure> Structures;
static bool Sorted(const Structures& l, int i) { return NTH(l, i).station() < NTH(l, i + 1).station(); }
static bool Same(const LineStructure& a, const LineStructure& b) {
  return EQ(a.station(), b.station()) && EQ(a.offset(), b.offset()) && EQ(a.rotation(), b.rotation())
      && EQ(a.height_adjustment(), b.height_adjustment()) && a.structure() == b.structure();
}
static void Unchanged(const Structures& now, const Structures& was) {
  ENSURES("same number of structures", now.size() == was.size());
  ENSURES_ALL("same structures", i, 0, static_cast<int>(was.size()), Same(NTH(now, i), NTH(was, i)));
}
CONTRACT K_add_structure(TransmissionLine& t, const LineStructure& s) {
  const Structures was = *t.line_structures();
  const int n = was.size();
  REQUIRES_ALL(i, 0, n - 1, Sorted(was, i));
  const int r = t.AddLineStructure(s);
  const Structures now = *t.line_structures();
  if (r == -1) {
    Unchanged(now, was);
  } else {
    ENSURES("a station of the alignment", t.alignment()->IsValidStation(s.station()));
    ENSURES("one more structure", static_cast<int>(now.size()) == n + 1);
    ENSURES("index of the new structure", 0 <= r && r <= n);
    ENSURES("the new structure", Same(NTH(now, r), s));
    ENSURES_ALL("structures before it", i, 0, r, Same(NTH(now, i), NTH(was, i)));
    ENSURES_ALL("structures after it", i, r, n, Same(NTH(now, i + 1), NTH(was, i)));
    ENSURES_ALL("sorted", i, 0, n, Sorted(now, i));
  }
}
CONTRACT K_add_structure_accepts(TransmissionLine& t, const LineStructure& s) {
  const int n = t.line_structures()->size();
  REQUIRES_ALL(i, 0, n - 1, Sorted(*t.line_structures(), i));
  REQUIRES_ALL(i, 0, n, NEQ(NTH(*t.line_structures(), i).station(), s.station()));
  REQUIRES(t.alignment()->IsValidStation(s.station()));
  ENSURES("accepted", t.AddLineStructure(s) != -1);
}

CONTRACT K_modify_structure(TransmissionLine& t, int index, const LineStructure& s) {
  REQUIRES(t.line_cables()->empty());
  REQUIRES(s.structure() != nullptr);
  const Structures was = *t.line_structures();
  const int n = was.size();
  REQUIRES_ALL(i, 0, n - 1, Sorted(was, i));
  const bool r = t.ModifyLineStructure(index, s);
  const Structures now = *t.line_structures();
  if (!r) {
    Unchanged(now, was);
  } else {
    ENSURES("a station of the alignment", t.alignment()->IsValidStation(s.station()));
    ENSURES("an index of the list", 0 <= index && index < n);
    ENSURES("same number of structures", static_cast<int>(now.size()) == n);
    ENSURES("the new structure", Same(NTH(now, index), s));
    ENSURES_ALL("structures before it", i, 0, index, Same(NTH(now, i), NTH(was, i)));
    ENSURES_ALL("structures after it", i, index + 1, n, Same(NTH(now, i), NTH(was, i)));
    ENSURES_ALL("sorted", i, 0, n - 1, Sorted(now, i));
  }
}

CONTRACT K_delete_structure(TransmissionLine& t, int index) {
  REQUIRES(t.line_cables()->empty());
  const Structures was = *t.line_structures();
  const int n = was.size();
  const bool r = t.DeleteLineStructure(index);
  const Structures now = *t.line_structures();
  ENSURES("exactly the indices of the list", r == (0 <= index && index < n));
  if (!r) {
    Unchanged(now, was);
  } else {
    ENSURES("one structure less", static_cast<int>(now.size()) == n - 1);
    ENSURES_ALL("structures before it", i, 0, index, Same(NTH(now, i), NTH(was, i)));
    ENSURES_ALL("structures after it", i, index, n - 1, Same(NTH(now, i), NTH(was, i + 1)));
  }
}

typedef std::list<LineCableConnection> Connections;
static double Station(const Connections& l, int i) { return NTH(l, i).line_structure->station(); }
static bool SameConnection(const LineCableConnection& a, const LineCableConnection& b) {
  return a.line_structure == b.line_structure && a.index_attachment == b.index_attachment;
}
static void Unchanged(const Connections& now, const Connections& was) {
  ENSURES("same number of connections", now.size() == was.size());
  ENSURES_ALL("same connections", i, 0, static_cast<int>(was.size()), SameConnection(NTH(now, i), NTH(was, i)));
}
CONTRACT K_add_connection(LineCable& c, const LineCableConnection& x) {
  const Connections was = *c.connections();
  const int n = was.size();
  REQUIRES_ALL(i, 0, n, NTH(was, i).line_structure != nullptr);
  REQUIRES_ALL(i, 0, n - 1, Station(was, i) < Station(was, i + 1));
  const int r = c.AddConnection(x);
  const Connections now = *c.connections();
  if (r == -1) {
    Unchanged(now, was);
  } else {
    ENSURES("one more connection", static_cast<int>(now.size()) == n + 1);
    ENSURES("index of the new connection", 0 <= r && r <= n);
    ENSURES("the new connection", SameConnection(NTH(now, r), x));
    ENSURES_ALL("connections before it", i, 0, r, SameConnection(NTH(now, i), NTH(was, i)));
    ENSURES_ALL("connections after it", i, r, n, SameConnection(NTH(now, i + 1), NTH(was, i)));
    ENSURES_ALL("sorted", i, 0, n, Station(now, i) < Station(now, i + 1));
  }
}
CONTRACT K_add_connection_accepts(LineCable& c, const LineCableConnection& x) {
  const int n = c.connections()->size();
  REQUIRES_ALL(i, 0, n, NTH(*c.connections(), i).line_structure != nullptr);
  REQUIRES(x.line_structure != nullptr);
  REQUIRES_ALL(i, 0, n - 1, Station(*c.connections(), i) < Station(*c.connections(), i + 1));
  REQUIRES_ALL(i, 0, n, NEQ(Station(*c.connections(), i), x.line_structure->station()));
  ENSURES("accepted", c.AddConnection(x) != -1);
}
CONTRACT K_add_connection_rejects(LineCable& c, const LineCableConnection& x, int k) {
  const int n = c.connections()->size();
  REQUIRES_ALL(i, 0, n, NTH(*c.connections(), i).line_structure != nullptr);
  if (x.line_structure != nullptr) {
    SAMPLE_INT(k, 0, n - 1);
    REQUIRES(0 <= k && k < n);
    REQUIRES_ALL(i, 0, k, Station(*c.connections(), i) < Station(*c.connections(), k));
    REQUIRES(EQ(Station(*c.connections(), k), x.line_structure->station()));
  }
  ENSURES("a missing structure or a taken station", c.AddConnection(x) == -1);
}
CONTRACT K_delete_connection(LineCable& c, int index) {
  const Connections was = *c.connections();
  const int n = was.size();
  const bool r = c.DeleteConnection(index);
  const Connections now = *c.connections();
  ENSURES("exactly the indices of the list", r == (0 <= index && index < n));
  if (!r) {
    Unchanged(now, was);
  } else {
    ENSURES("one connection less", static_cast<int>(now.size()) == n - 1);
    ENSURES_ALL("connections before it", i, 0, index, SameConnection(NTH(now, i), NTH(was, i)));
    ENSURES_ALL("connections after it", i, index, n - 1, SameConnection(NTH(now, i), NTH(was, i + 1)));
  }
}
// the connections without the one at index k
static const LineCableConnection& Rest(const Connections& l, int k, int i) { return NTH(l, i < k ? i : i + 1); }
CONTRACT K_modify_connection(LineCable& c, int k, const LineCableConnection& x) {
  const Connections was = *c.connections();
  const int n = was.size();
  SAMPLE_INT(k, -1, n);
  REQUIRES_ALL(i, 0, n, NTH(was, i).line_structure != nullptr);
  REQUIRES_ALL(i, 0, n - 1, Station(was, i) < Station(was, i + 1));
  // sorted, as seen from connection k
  REQUIRES_ALL(i, 0, k, n <= k || Station(was, i) < Station(was, k));
  REQUIRES_ALL(i, k + 1, n, k < 0 || Station(was, k) < Station(was, i));
  const int r = c.ModifyConnection(k, x);
  const Connections now = *c.connections();
  if (r == -1) {
    Unchanged(now, was);
  } else {
    ENSURES("an existing connection", 0 <= k && k < n);
    ENSURES("same number of connections", static_cast<int>(now.size()) == n);
    ENSURES("index of the connection", 0 <= r && r < n);
    ENSURES("the new connection", SameConnection(NTH(now, r), x));
    ENSURES_ALL("connections before it", i, 0, r, SameConnection(NTH(now, i), Rest(was, k, i)));
    ENSURES_ALL("connections after it", i, r, n - 1, SameConnection(NTH(now, i + 1), Rest(was, k, i)));
    ENSURES_ALL("sorted", i, 0, n - 1, Station(now, i) < Station(now, i + 1));
  }
}

// extending the alignment of a line leaves the structures alone
CONTRACT K_line_alignment_add(TransmissionLine& t, const AlignmentPoint& p) {
  const Structures was = *t.line_structures();
  Alignment a = *t.alignment();
  const int r = t.AddAlignmentPoint(p);
  ENSURES("as the alignment alone", r == a.AddPoint(p) && t.alignment()->points()->size() == a.points()->size());
  Unchanged(*t.line_structures(), was);
}
