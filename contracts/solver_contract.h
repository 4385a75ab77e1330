// Contract of the catenary constraint solver for its callers: a function of the current settings
// (the K_contract_catenarysolver_ functions).
#ifndef SOLVER_CONTRACT_H_
#define SOLVER_CONTRACT_H_
#include "catenary3d_contract.h"
#include "models/transmissionline/catenary_solver.h"

struct Goal {
  Vector3d w, a; CatenarySolver::TargetType t; double v, p;
  Goal() { t = CatenarySolver::TargetType::kNull; v = 0; p = -1; }
};
static void ApplyGoal(CatenarySolver& c, const Goal& g) {
  c.set_weight_unit(g.w); c.set_spacing_endpoints(g.a); c.set_type_target(g.t); c.set_value_target(g.v); c.set_position_target(g.p);
}
static Goal AnyGoal(double wy, double wz, double x, double z, double v, double p) {
  SAMPLE(wy, 0, 4); SAMPLE(wz, 0.3, 6); SAMPLE(x, 100, 1500); SAMPLE(z, -300, 300); SAMPLE(v, 10, 3000); SAMPLE(p, 0, 1);
  Goal g; g.w = Vector3d(0, wy, wz); g.a = Vector3d(x, 0, z); g.v = v; g.p = p;
  return g;
}
#define GOAL_CHANGE(name, type, change)                                                                                 \
  CONTRACT K_contract_catenarysolver_##name(double wy, double wz, double x, double z, double v, double p,               \
                           double wy2, double wz2, double x2, double z2, double v2, double p2, bool asked, bool warn) { \
    Goal g = AnyGoal(wy, wz, x, z, v, p);                                                                               \
    const Goal n = AnyGoal(wy2, wz2, x2, z2, v2, p2);                                                                   \
    g.t = CatenarySolver::TargetType::type;                                                                             \
    CatenarySolver c, d; ApplyGoal(c, g);                                                                               \
    if (asked) c.TensionHorizontal();                                                                                   \
    change;                                                                                                             \
    ApplyGoal(d, g);                                                                                                    \
    ENSURES("verdict", c.Validate(warn, nullptr) == d.Validate(warn, nullptr));                                         \
    ENSURES("horizontal tension", EQ(c.TensionHorizontal(), d.TensionHorizontal()));                                    \
  }
#define GOAL_CHANGES(name, type)                                                                                        \
  GOAL_CHANGE(name##_weight, type, g.w = n.w; c.set_weight_unit(g.w))                                                   \
  GOAL_CHANGE(name##_spacing, type, g.a = n.a; c.set_spacing_endpoints(g.a))                                            \
  GOAL_CHANGE(name##_value, type, g.v = n.v; c.set_value_target(g.v))                                                   \
  GOAL_CHANGE(name##_position, type, g.p = n.p; c.set_position_target(g.p))
GOAL_CHANGES(tension, kTension)
#ifdef GOAL_TYPES
GOAL_CHANGES(constant, kConstant)
GOAL_CHANGES(length, kLength)
GOAL_CHANGES(sag, kSag)
#endif
#ifdef OTLS_SYMBOLIC
static double UfGoal(const char* n, const CatenarySolver* c, double s) {
  return __vc_uf(n, c->weight_unit().x(), c->weight_unit().y(), c->weight_unit().z(),
                 c->spacing_endpoints().x(), c->spacing_endpoints().y(), c->spacing_endpoints().z(),
                 static_cast<double>(static_cast<int>(c->type_target())), c->value_target(), c->position_target(), s);
}
extern "C" {
bool S__ZNK14CatenarySolver8ValidateERKbPNSt7__cxx114listI12ErrorMessageSaIS4_EEE(const CatenarySolver* c, const bool& warn, std::list<ErrorMessage>* messages) {
  REQUIRES(messages == nullptr);
  return UfGoal("solver.valid", c, warn ? 1 : 0) != 0;
}
double S__ZNK14CatenarySolver17TensionHorizontalEv(const CatenarySolver* c) { return UfGoal("solver.tension", c, 0); }
}
#endif
#endif
