// Contract of the steady temperature solver for its callers: a function of its settings.
#ifndef DEGREES_CONTRACT_H_
#define DEGREES_CONTRACT_H_
#include "steady_contract.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"

struct Degrees {
  const ThermalRatingCable* cable; double i; units::UnitSystem u; const ThermalRatingWeather* w;
  template <class S> void Apply(S& s) const { s.set_cable(cable); s.set_current(i); s.set_units(u); s.set_weather(w); }
};
#define DEGREES(name, change)                                                                                            \
  CONTRACT K_contract_steadycabletemperaturesolver_##name(const ThermalRatingCable& ca, const ThermalRatingCable& cb,                             \
      double i, double i2, units::UnitSystem u, units::UnitSystem u2, const ThermalRatingWeather& wa,                   \
      const ThermalRatingWeather& wb, bool asked, bool warn) {                                                          \
    SAMPLE(i, 0, 2000); SAMPLE(i2, 0, 2000);                                                                            \
    Degrees g; g.cable = &ca; g.i = i; g.u = u; g.w = &wa;                                                              \
    SteadyCableTemperatureSolver a, b; g.Apply(a);                                                                      \
    if (asked) a.TemperatureCable();                                                                                    \
    change;                                                                                                             \
    g.Apply(b);                                                                                                         \
    ENSURES("temperature", EQ(a.TemperatureCable(), b.TemperatureCable()));                                             \
    SameHeat(a.StateHeatTransfer(), b.StateHeatTransfer());                                                             \
    ENSURES("asked again", EQ(a.TemperatureCable(), b.TemperatureCable()));                                             \
    ENSURES("verdict", a.Validate(warn, nullptr) == b.Validate(warn, nullptr));                                         \
  }
DEGREES(cable, g.cable = &cb; a.set_cable(g.cable))
DEGREES(current, g.i = i2; a.set_current(i2))
DEGREES(units, g.u = u2; a.set_units(u2))
DEGREES(weather, g.w = &wb; a.set_weather(g.w))
DEGREES(no_weather, g.w = nullptr; a.set_weather(nullptr))
DEGREES(nothing, (void)0)
#ifdef OTLS_SYMBOLIC
extern "C" {
double S__ZNK28SteadyCableTemperatureSolver16TemperatureCableEv(const SteadyCableTemperatureSolver* s) {
  return __vc_state("steady.temperature", s->cable(), s->weather(), static_cast<double>(static_cast<int>(s->units())), s->current());
}
}
#endif
#endif
