// C07: alignment points stay sorted by station; accepted edits do exactly what they say, rejected ones nothing.
#include "spec.h"
#include "models/transmissionline/alignment.h"

typedef std::list<AlignmentPoint> Points;
static bool Sorted(const Points& l, int i) { return NTH(l, i).station < NTH(l, i + 1).station; }
static bool Same(const AlignmentPoint& a, const AlignmentPoint& b) {
  return EQ(a.station, b.station) && EQ(a.elevation, b.elevation) && EQ(a.rotation, b.rotation);
}
static void Unchanged(const Points& now, const Points& was) {
  ENSURES("same number of points", now.size() == was.size());
  ENSURES_ALL("same points", i, 0, static_cast<int>(was.size()), Same(NTH(now, i), NTH(was, i)));
}
static void Inserted(const Points& now, const Points& was, int r, const AlignmentPoint& p) {
  const int n = was.size();
  ENSURES("one more point", static_cast<int>(now.size()) == n + 1);
  ENSURES("index of the new point", 0 <= r && r <= n);
  ENSURES("the new point", Same(NTH(now, r), p));
  ENSURES_ALL("points before it", i, 0, r, Same(NTH(now, i), NTH(was, i)));
  ENSURES_ALL("points after it", i, r, n, Same(NTH(now, i + 1), NTH(was, i)));
  ENSURES_ALL("sorted", i, 0, n, Sorted(now, i));
}
CONTRACT K_add(Alignment& a, const AlignmentPoint& p) {
  const Points was = *a.points();
  const int n = was.size();
  REQUIRES_ALL(i, 0, n - 1, Sorted(was, i));
  const int r = a.AddPoint(p);
  if (r == -1) Unchanged(*a.points(), was);
  else Inserted(*a.points(), was, r, p);
}
CONTRACT K_add_new_station(Alignment& a, const AlignmentPoint& p) {
  const int n = a.points()->size();
  REQUIRES_ALL(i, 0, n - 1, Sorted(*a.points(), i));
  REQUIRES_ALL(i, 0, n, NEQ(NTH(*a.points(), i).station, p.station));
  ENSURES("accepted", a.AddPoint(p) != -1);
}
CONTRACT K_add_taken_station(Alignment& a, const AlignmentPoint& p, int k) {
  const int n = a.points()->size();
  SAMPLE_INT(k, 0, n - 1);
  REQUIRES(0 <= k && k < n);
  // sorted, as seen from point k
  REQUIRES_ALL(i, 0, k, NTH(*a.points(), i).station < NTH(*a.points(), k).station);
  REQUIRES_ALL(i, k + 1, n, NTH(*a.points(), k).station < NTH(*a.points(), i).station);
  AlignmentPoint q = p; q.station = NTH(*a.points(), k).station;
  ENSURES("rejected", a.AddPoint(q) == -1);
}
// the points without the one at index k
static const AlignmentPoint& Rest(const Points& l, int k, int i) { return NTH(l, i < k ? i : i + 1); }
CONTRACT K_delete(Alignment& a, int k) {
  const Points was = *a.points();
  const int n = was.size();
  SAMPLE_INT(k, -1, n);
  const bool done = a.DeletePoint(k);
  ENSURES("accepted exactly for an existing point", done == (0 <= k && k < n));
  if (done) {
    ENSURES("one point less", static_cast<int>(a.points()->size()) == n - 1);
    ENSURES_ALL("the others stay", i, 0, n - 1, Same(NTH(*a.points(), i), Rest(was, k, i)));
  } else {
    Unchanged(*a.points(), was);
  }
}
CONTRACT K_modify(Alignment& a, int k, const AlignmentPoint& p) {
  const Points was = *a.points();
  const int n = was.size();
  SAMPLE_INT(k, -1, n);
  REQUIRES_ALL(i, 0, n - 1, Sorted(was, i));
  // sorted, as seen from point k
  REQUIRES_ALL(i, 0, k, n <= k || NTH(was, i).station < NTH(was, k).station);
  REQUIRES_ALL(i, k + 1, n, k < 0 || NTH(was, k).station < NTH(was, i).station);
  const int r = a.ModifyPoint(k, p);
  const Points now = *a.points();
  if (r == -1) {
    Unchanged(now, was);
  } else {
    ENSURES("an existing point", 0 <= k && k < n);
    ENSURES("same number of points", static_cast<int>(now.size()) == n);
    ENSURES("index of the point", 0 <= r && r < n);
    ENSURES("the new point", Same(NTH(now, r), p));
    ENSURES_ALL("points before it", i, 0, r, Same(NTH(now, i), Rest(was, k, i)));
    ENSURES_ALL("points after it", i, r, n - 1, Same(NTH(now, i + 1), Rest(was, k, i)));
    ENSURES_ALL("sorted", i, 0, n - 1, Sorted(now, i));
  }
}
CONTRACT K_modify_accepts(Alignment& a, int k, const AlignmentPoint& p) {
  const int n = a.points()->size();
  SAMPLE_INT(k, 0, n - 1);
  REQUIRES_ALL(i, 0, n - 1, Sorted(*a.points(), i));
  REQUIRES(0 <= k && k < n);
  REQUIRES_ALL(i, 0, n, i == k || NEQ(NTH(*a.points(), i).station, p.station));
  ENSURES("accepted", a.ModifyPoint(k, p) != -1);
}
CONTRACT K_station(const Alignment& a, double s) {
  const Points l = *a.points();
  const int n = l.size();
  REQUIRES_ALL(i, 0, n - 1, Sorted(l, i));
  const bool valid = a.IsValidStation(s);
  if (n == 0) {
    ENSURES("no station is on an empty alignment", !valid);
    ENSURES("no segment", a.IndexSegment(s) == -1);
  } else {
    ENSURES("between the end points", valid == (NTH(l, 0).station <= s && s <= NTH(l, n - 1).station));
    const int k = a.IndexSegment(s);
    if (!valid) {
      ENSURES("no segment outside", k == -1);
    } else if (n > 1) {
      ENSURES("an existing segment", 0 <= k && k < n - 1);
      ENSURES("the segment holds the station", NTH(l, k).station <= s && s <= NTH(l, k + 1).station);
    }
  }
}
