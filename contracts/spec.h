// Specification language of the contracts.
//
// A contract is an ordinary C++ function: preconditions (REQUIRES), calls of the
// real functions, postconditions (ENSURES).  The verifier executes it
// symbolically over the compiler's IR of the real code (OTLS_SYMBOLIC); the
// replay driver compiles the same text natively and runs it on concrete inputs.
// Parameters are universally quantified; objects passed by reference are
// arbitrary objects of their type.
#ifndef VERIF_SPEC_H_
#define VERIF_SPEC_H_

#include <cmath>
#include <list>
#include <string>
#include <vector>

#define CONTRACT void
// a lemma: proved like a contract, used by its pre/postcondition where called
#define LEMMA_FN void

#ifdef OTLS_SYMBOLIC

extern "C" {
void __vc_assume(bool c);
void __vc_assert(bool c, const char* name);
void __vc_known(bool c);
void __vc_unfold_loops();
// an arbitrary function of the objects reached from the arguments
double __vc_state(const char* name, ...);   // (const void*..., double...)
void __vc_lemma(bool c, const char* name);
void __vc_fact(bool c, const char* name);
int __vc_any_int(const char* name);
double __vc_any_double(const char* name);
bool __vc_any_bool(const char* name);
int __vc_bound_int();
void __vc_assume_forall(int v, int lo, int hi, bool c);
bool __vc_implies(bool a, bool b);
double __vc_pi();
double __vc_polar(double x, double y);     // angle of (x, y) in [0, 2 pi)
// an arbitrary function of its arguments
double __vc_uf(const char* name, ...);   // (double...)
void __vc_quiet_begin();
void __vc_quiet_end();
void __vc_reachable(const char* name);
}

#define REQUIRES(c) __vc_assume(c)
#define ENSURES(name, c) __vc_assert((c), name)
// conclusion of a contract used in place of a body (proved by its K_contract_)
#define GUARANTEES(c) __vc_known(c)
#define LEMMA(name, c) __vc_lemma((c), name)
// values carried from one iteration to the next are related by the loop body
#define UNFOLD_LOOPS __vc_unfold_loops();
#define MATHFACT(name, c) __vc_fact((c), name)
#define REACHABLE(name) __vc_reachable(name)
// equality / order of real values; the verifier reads them exactly, the native
// replay with a relative tolerance
#define EQ(a, b) ((a) == (b))
#define EQT(a, b, tol) ((a) == (b))
#define LE(a, b) ((a) <= (b))
#define LT(a, b) ((a) < (b))
#define NEQ(a, b) ((a) != (b))
#define SPEC_PI __vc_pi()
#define IMPLIES(a, b) (!(a) || (b))
// range the native replay samples a parameter from; no restriction for the proof
#define SAMPLE(x, lo, hi)
#define SAMPLE_INT(x, lo, hi)
// for all i in [lo,hi): postcondition / precondition
#define ENSURES_ALL(name, i, lo, hi, expr) \
  { const int i = __vc_any_int(#i); if ((lo) <= i && i < (hi)) { ENSURES(name, expr); } }
#define REQUIRES_ALL(i, lo, hi, expr) \
  { const int i = __vc_bound_int(); __vc_assume_forall(i, (lo), (hi), (expr)); }
template <class T> const T& vc_nth(const std::list<T>& l, int i);
template <class T> const T& vc_nth(const std::vector<T>& l, int i);
// every field of the two objects agrees
template <class T> bool vc_same(const T& a, const T& b);
#define SAME(a, b) vc_same((a), (b))
#define NTH(c, i) vc_nth((c), (i))

#else  // native replay

#include "native.h"

#endif
#endif
