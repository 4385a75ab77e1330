// Contract of the steady current solver for its callers: a function of its settings.
#ifndef STEADY_CONTRACT_H_
#define STEADY_CONTRACT_H_
#include "thermal_contract.h"
#include "models/thermalrating/steady_cable_current_solver.h"

static void SameHeat(const CableHeatTransferState& a, const CableHeatTransferState& b) {
  ENSURES("convection", EQ(a.heat_convection, b.heat_convection));
  ENSURES("radiation", EQ(a.heat_radiation, b.heat_radiation));
  ENSURES("resistive", EQ(a.heat_resistance, b.heat_resistance));
  ENSURES("solar", EQ(a.heat_solar, b.heat_solar));
  ENSURES("stored", EQ(a.heat_storage, b.heat_storage));
}
struct Amps {
  const ThermalRatingCable* cable; double t; units::UnitSystem u; const ThermalRatingWeather* w;
  template <class S> void Apply(S& s) const { s.set_cable(cable); s.set_temperature_cable(t); s.set_units(u); s.set_weather(w); }
};
#define AMPS(name, change)                                                                                               \
  CONTRACT K_contract_steadycablecurrentsolver_##name(const ThermalRatingCable& ca, const ThermalRatingCable& cb,       \
      double t, double t2, units::UnitSystem u, units::UnitSystem u2, const ThermalRatingWeather& wa,                   \
      const ThermalRatingWeather& wb, bool asked, bool warn) {                                                          \
    SAMPLE(t, -50, 300); SAMPLE(t2, -50, 300);                                                                          \
    Amps g; g.cable = &ca; g.t = t; g.u = u; g.w = &wa;                                                                 \
    SteadyCableCurrentSolver a, b; g.Apply(a);                                                                          \
    if (asked) a.Current();                                                                                             \
    change;                                                                                                             \
    g.Apply(b);                                                                                                         \
    ENSURES("current", EQ(a.Current(), b.Current()));                                                                   \
    SameHeat(a.StateHeatTransfer(), b.StateHeatTransfer());                                                             \
    ENSURES("asked again", EQ(a.Current(), b.Current()));                                                               \
    ENSURES("verdict", a.Validate(warn, nullptr) == b.Validate(warn, nullptr));                                         \
    CableHeatTransferSolver s; s.set_cable(g.cable); s.set_units(g.u); s.set_weather(g.w);                              \
    const bool ok = a.Validate(warn, nullptr);                                                                          \
    ENSURES("valid for the heat transfer solver", !ok || s.Validate(true, nullptr));                                    \
    ENSURES("complete when valid", !ok || (g.w != nullptr && g.u != units::UnitSystem::kNull && Complete(g.cable)));    \
  }
AMPS(cable, g.cable = &cb; a.set_cable(g.cable))
AMPS(temperature, g.t = t2; a.set_temperature_cable(t2))
AMPS(units, g.u = u2; a.set_units(u2))
AMPS(weather, g.w = &wb; a.set_weather(g.w))
AMPS(no_cable, g.cable = nullptr; a.set_cable(nullptr))
AMPS(no_weather, g.w = nullptr; a.set_weather(nullptr))
AMPS(nothing, (void)0)
#ifdef OTLS_SYMBOLIC
static double Amp(const char* n, const SteadyCableCurrentSolver* s, double x) {
  return __vc_state(n, s->cable(), s->weather(), static_cast<double>(static_cast<int>(s->units())), s->temperature_cable(), x);
}
extern "C" {
double S__ZNK24SteadyCableCurrentSolver7CurrentEv(const SteadyCableCurrentSolver* s) { return Amp("steady.current", s, 0); }
CableHeatTransferState S__ZNK24SteadyCableCurrentSolver17StateHeatTransferEv(const SteadyCableCurrentSolver* s) {
  CableHeatTransferState r;
  r.heat_convection = Amp("steady.convection", s, 0); r.heat_radiation = Amp("steady.radiation", s, 0);
  r.heat_resistance = Amp("steady.resistive", s, 0); r.heat_solar = Amp("steady.solar", s, 0);
  r.heat_storage = Amp("steady.stored", s, 0);
  return r;
}
bool S__ZNK24SteadyCableCurrentSolver8ValidateERKbPNSt7__cxx114listI12ErrorMessageSaIS4_EEE(
    const SteadyCableCurrentSolver* s, const bool& warn, std::list<ErrorMessage>* messages) {
  REQUIRES(messages == nullptr);
  const bool ok = Amp("steady.valid", s, warn) != 0;
  GUARANTEES(!ok || __vc_state("heat.valid", s->cable(), s->weather(), static_cast<double>(static_cast<int>(s->units())), 1.0, 0.0) != 0);
  GUARANTEES(!ok || (s->weather() != nullptr && s->units() != units::UnitSystem::kNull && Complete(s->cable())));
  return ok;
}
}
#endif
#endif
