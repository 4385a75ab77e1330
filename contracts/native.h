// Native reading of the specification language: concrete inputs, tolerant
// comparison of real values.
#ifndef VERIF_NATIVE_H_
#define VERIF_NATIVE_H_

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <list>

namespace vcn {
struct Reject {};
struct Ctx {
  std::map<std::string, double> vals;    // inputs from the solver's model
  std::vector<std::string> failed;
  uint64_t s;
  bool exact;       // replay of the solver's values as they are
  bool boundary;
  int nsample;
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  int below(int n) { return static_cast<int>(next() % static_cast<uint64_t>(n)); }
};
extern Ctx ctx;

inline double draw_real() {
  switch (ctx.below(8)) {
    case 0: return ctx.below(7) - 3;
    case 1: return (ctx.below(41) - 20) * 0.5;
    case 2: return ctx.unit();
    case 3: return (ctx.unit() - 0.5) * 20;
    case 4: return ctx.unit() * 400;
    case 5: return (ctx.unit() - 0.3) * 2000;
    case 6: return std::pow(10.0, ctx.unit() * 6 - 1);
    default: return -std::pow(10.0, ctx.unit() * 5 - 1);
  }
}
struct Tag {};
void logline(const std::string& k, double v);
inline double get(const std::string& key, double fallback) {
  std::map<std::string, double>::const_iterator it = ctx.vals.find(key);
  const double v = it == ctx.vals.end() ? fallback : it->second;
  logline(key, v);
  return v;
}
inline bool has(const std::string& key) { return ctx.vals.find(key) != ctx.vals.end(); }

inline double scale(double a, double b) {
  const double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  return m < 1 ? 1 : m;
}
inline bool close(double a, double b, double tol) {
  if (a == b) return true;
  if (a != a && b != b) return true;
  return std::fabs(a - b) <= tol * scale(a, b);
}
inline bool eq(double a, double b) { return close(a, b, 1e-6); }
inline bool eq(double a, int b) { return close(a, b, 1e-6); }
inline bool eq(int a, double b) { return close(a, b, 1e-6); }
template <class A, class B> bool eq(const A& a, const B& b) { return a == b; }
inline bool le(double a, double b) { return a <= b + 1e-7 * scale(a, b); }

inline double sample_(double x, double lo, double hi) {
  if (ctx.exact) return x;
  if (x >= lo && x <= hi && ctx.below(4)) return x;
  switch (ctx.below(6)) {
    case 0: return lo + std::floor(ctx.unit() * (hi - lo));
    case 1: return lo + (hi - lo) * ctx.unit() * ctx.unit() * ctx.unit();
    default: return lo + (hi - lo) * ctx.unit();
  }
}
inline double sample(const char* n, double x, double lo, double hi) {
  const double v = sample_(x, lo, hi);
  logline(std::string("sample ") + n, v);
  return v;
}
inline int sample_int(const char* n, int x, int lo, int hi) {
  const int v = (ctx.exact || hi < lo || (x >= lo && x <= hi)) ? x : lo + ctx.below(hi - lo + 1);
  logline(std::string("sample ") + n, v);
  return v;
}
inline void check(bool c, const char* name) { if (!c) { ctx.failed.push_back(name); } }
template <class T> bool same(const T& a, const T& b) { return same_impl(a, b, Tag()); }
}  // namespace vcn

#define UNFOLD_LOOPS
#define REQUIRES(c) do { if (!(c)) throw vcn::Reject(); } while (0)
#define ENSURES(name, c) vcn::check((c), name)
#define LEMMA(name, c) do { } while (0)
#define MATHFACT(name, c) do { } while (0)
#define REACHABLE(name) do { } while (0)
#define EQ(a, b) vcn::eq((a), (b))
#define EQT(a, b, tol) vcn::close((a), (b), (tol))
#define LE(a, b) vcn::le((a), (b))
#define LT(a, b) vcn::le((a), (b))
#define NEQ(a, b) (std::fabs((a) - (b)) > 1e-4)
#define SPEC_PI 3.14159265358979323846
#define IMPLIES(a, b) (!(a) || (b))
#define SAMPLE(x, lo, hi) const_cast<double&>(x) = vcn::sample(#x, (x), (lo), (hi))
#define SAMPLE_INT(x, lo, hi) const_cast<int&>(x) = vcn::sample_int(#x, (x), (lo), (hi))
#define ENSURES_ALL(name, i, lo, hi, expr) \
  for (int i = (lo); i < static_cast<int>(hi); i++) { ENSURES(name, expr); }
#define REQUIRES_ALL(i, lo, hi, expr) \
  for (int i = (lo); i < static_cast<int>(hi); i++) { REQUIRES(expr); }
template <class T> const T& vc_nth(const std::list<T>& l, int i) {
  typename std::list<T>::const_iterator it = l.begin();
  for (int k = 0; k < i; k++) ++it;
  return *it;
}
template <class T> const T& vc_nth(const std::vector<T>& l, int i) { return l[i]; }
#define SAME(a, b) vcn::same((a), (b))
#define NTH(c, i) vc_nth((c), (i))
#endif
