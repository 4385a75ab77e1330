// Contract of the polynomial for its callers: value, slope and solution are functions of the current
// coefficients (the K_contract_polynomial_ functions; the values themselves are C06).
#ifndef POLYNOMIAL_CONTRACT_H_
#define POLYNOMIAL_CONTRACT_H_
#include "spec.h"
#include "models/base/polynomial.h"
CONTRACT K_contract_polynomial_history(const std::vector<double>& c, const std::vector<double>& d, double x, bool asked) {
  SAMPLE(x, -3, 3);
  REQUIRES(1 <= c.size() && 1 <= d.size());
  Polynomial p(&c), q(&d);
  if (asked) p.Slope(x);
  p.set_coefficients(&d);
  ENSURES("slope", EQ(p.Slope(x), q.Slope(x)));
  ENSURES("value", EQ(p.Y(x), q.Y(x)));
  ENSURES("slope kept", EQ(p.Slope(x), q.Slope(x)));
}
CONTRACT K_contract_polynomial_solution(const std::vector<double>& c, const std::vector<double>& d, double y, int n, double x, bool asked) {
  SAMPLE(x, -3, 3); SAMPLE(y, -3, 3); SAMPLE_INT(n, 0, 5);
  REQUIRES(1 <= c.size() && 1 <= d.size());
  Polynomial p(&c), q(&d);
  if (asked) p.Slope(x);
  p.set_coefficients(&d);
  const double r = q.X(y, n, x);
  ENSURES("solution", EQ(p.X(y, n, x), r));
}
#ifdef OTLS_SYMBOLIC
extern "C" {
double S__ZNK10Polynomial1YERKd(const Polynomial* p, const double& x) {
  REQUIRES(p->coefficients() != nullptr);
  return __vc_state("polynomial.y", p->coefficients(), x);
}
double S__ZNK10Polynomial5SlopeERKd(const Polynomial* p, const double& x) {
  REQUIRES(p->coefficients() != nullptr && 1 <= p->coefficients()->size());
  return __vc_state("polynomial.slope", p->coefficients(), x);
}
double S__ZNK10Polynomial1XERKdRKiS1_(const Polynomial* p, const double& y, const int& n, const double& x) {
  REQUIRES(p->coefficients() != nullptr && 1 <= p->coefficients()->size());
  return __vc_state("polynomial.x", p->coefficients(), y, static_cast<double>(n), x);
}
}
#endif
#endif
