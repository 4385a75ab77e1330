// C16: transient temperatures are a function of the current settings.
#include "degrees_contract.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"

struct Step {
  const ThermalRatingCable* cable; double i0, i1; int n; units::UnitSystem u; const ThermalRatingWeather* w;
  template <class S> void Apply(S& s) const {
    s.set_cable(cable); s.set_current_steady(i0); s.set_current_step(i1); s.set_duration(n); s.set_units(u); s.set_weather(w);
  }
};
#define STEP(name, change)                                                                                              \
  CONTRACT K_transient_##name(const ThermalRatingCable& ca, const ThermalRatingCable& cb,                               \
      double i0, double i1, int n, int k, double j, int m, units::UnitSystem u, units::UnitSystem u2,                   \
      const ThermalRatingWeather& wa, const ThermalRatingWeather& wb, bool asked, bool warn) {                          \
    SAMPLE(i0, 0, 2000); SAMPLE(i1, 0, 2000); SAMPLE_INT(n, 0, 10); SAMPLE(j, 0, 2000); SAMPLE_INT(m, 0, 10);           \
    SAMPLE_INT(k, 0, 10);                                                                                               \
    Step g; g.cable = &ca; g.i0 = i0; g.i1 = i1; g.n = n; g.u = u; g.w = &wa;                                           \
    TransientCableTemperatureSolver a, b; g.Apply(a);                                                                   \
    if (asked) a.PointsTemperature();                                                                                   \
    change;                                                                                                             \
    g.Apply(b);                                                                                                         \
    const std::list<TemperaturePoint>* p = a.PointsTemperature();                                                       \
    const std::list<TemperaturePoint>* q = b.PointsTemperature();                                                       \
    ENSURES("answered", (p == nullptr) == (q == nullptr));                                                              \
    if (p == nullptr || q == nullptr) return;                                                                           \
    ENSURES("number of points", p->size() == q->size());                                                                \
    if (k < 0 || static_cast<int>(q->size()) <= k) return;                                                              \
    ENSURES("time", NTH(*p, k).time == NTH(*q, k).time);                                                                \
    ENSURES("temperature", EQ(NTH(*p, k).temperature, NTH(*q, k).temperature));                                         \
  }
STEP(cable, g.cable = &cb; a.set_cable(g.cable))
STEP(steady, g.i0 = j; a.set_current_steady(j))
STEP(step, g.i1 = j; a.set_current_step(j))
STEP(duration, g.n = m; a.set_duration(m))
STEP(units, g.u = u2; a.set_units(u2))
STEP(weather, g.w = &wb; a.set_weather(g.w))
STEP(nothing, (void)0)
