// Contracts of the heat transfer solver and the rating cable for their callers: functions of the objects they are given.
#ifndef THERMAL_CONTRACT_H_
#define THERMAL_CONTRACT_H_
#include "spec.h"
#include "models/thermalrating/cable_heat_transfer_solver.h"

static bool Complete(const ThermalRatingCable* c) {
  return c != nullptr && c->cable_base() != nullptr && c->component_core()->component_base() != nullptr
      && c->component_shell()->component_base() != nullptr;
}
#define HEAT                                                                                              \
  SAMPLE(t, -40, 250);                                                                                    \
  CableHeatTransferSolver s; s.set_cable(&cable); s.set_units(u); s.set_weather(&w);
#define HEAT_ARGS const ThermalRatingCable& cable, units::UnitSystem u, const ThermalRatingWeather& w, double t
CONTRACT K_contract_cableheattransfersolver_valid(HEAT_ARGS, bool warn) {
  HEAT
  const bool ok = s.Validate(warn, nullptr);
  ENSURES("complete when valid", !ok || (Complete(&cable) && u != units::UnitSystem::kNull));
  ENSURES("verdict kept", ok == s.Validate(warn, nullptr));
}
CONTRACT K_contract_cableheattransfersolver_missing(HEAT_ARGS, bool warn, bool nocable, bool noweather) {
  HEAT
  REQUIRES(nocable || noweather);
  if (nocable) s.set_cable(nullptr);
  if (noweather) s.set_weather(nullptr);
  ENSURES("refused without cable or weather", !s.Validate(warn, nullptr));
}
CONTRACT K_contract_cableheattransfersolver_terms(HEAT_ARGS, double i) {
  HEAT
  SAMPLE(i, 0, 3000);
  REQUIRES(s.Validate(true, nullptr));
  REQUIRES(w.temperature_air <= t);
  const double c = s.HeatConvection(t), r = s.HeatRadiation(t), j = s.HeatResistance(t, i), o = s.HeatSolar();
  ENSURES("convection kept", EQ(s.HeatConvection(t), c));
  ENSURES("radiation kept", EQ(s.HeatRadiation(t), r));
  ENSURES("resistive heat kept", EQ(s.HeatResistance(t, i), j));
  ENSURES("resistive heat", EQ(j, i * i * cable.Resistance(t)));
  ENSURES("solar heat kept", EQ(s.HeatSolar(), o));
}
CONTRACT K_contract_thermalratingcable_resistance(const ThermalRatingCable& cable, double t) {
  SAMPLE(t, -40, 250);
  REQUIRES(Complete(&cable));
  ENSURES("resistance kept", EQ(cable.Resistance(t), cable.Resistance(t)));
}
CONTRACT K_contract_thermalratingcable_valid(const ThermalRatingCable& cable, bool warn) {
  const bool ok = cable.Validate(warn, nullptr);
  ENSURES("complete when valid", !ok || Complete(&cable));
  ENSURES("verdict kept", ok == cable.Validate(warn, nullptr));
  std::list<ErrorMessage> messages;
  ENSURES("same verdict with messages", cable.Validate(warn, &messages) == ok);
  ENSURES("a message for a rejection", messages.empty() == ok);
}
#ifdef OTLS_SYMBOLIC
static double Heat(const char* n, const CableHeatTransferSolver* s, double x, double y) {
  return __vc_state(n, s->cable(), s->weather(), static_cast<double>(static_cast<int>(s->units())), x, y);
}
extern "C" {
bool S__ZNK23CableHeatTransferSolver8ValidateERKbPNSt7__cxx114listI12ErrorMessageSaIS4_EEE(
    const CableHeatTransferSolver* s, const bool& warn, std::list<ErrorMessage>* messages) {
  REQUIRES(messages == nullptr);
  const bool ok = Heat("heat.valid", s, warn, 0) != 0;
  GUARANTEES(!ok || (s->weather() != nullptr && s->units() != units::UnitSystem::kNull && Complete(s->cable())));
  return ok;
}
double S__ZNK23CableHeatTransferSolver13HeatRadiationERKd(const CableHeatTransferSolver* s, const double& t) {
  REQUIRES(s->weather() != nullptr && Complete(s->cable()));
  return Heat("heat.radiation", s, t, 0);
}
double S__ZNK23CableHeatTransferSolver14HeatConvectionERKd(const CableHeatTransferSolver* s, const double& t) {
  REQUIRES(s->weather() != nullptr && Complete(s->cable()));
  return Heat("heat.convection", s, t, 0);
}
double S__ZNK23CableHeatTransferSolver9HeatSolarEv(const CableHeatTransferSolver* s) {
  REQUIRES(s->weather() != nullptr && Complete(s->cable()));
  return Heat("heat.solar", s, 0, 0);
}
bool S__ZNK18ThermalRatingCable8ValidateERKbPNSt7__cxx114listI12ErrorMessageSaIS4_EEE(
    const ThermalRatingCable* c, const bool& warn, std::list<ErrorMessage>* messages) {
  const bool ok = __vc_state("rating.cable.valid", c, warn ? 1.0 : 0.0) != 0;
  if (messages != nullptr && !ok) messages->push_back(ErrorMessage());
  GUARANTEES(!ok || Complete(c));
  return ok;
}
double S__ZNK18ThermalRatingCable10ResistanceERKd(const ThermalRatingCable* c, const double& t) {
  REQUIRES(Complete(c));
  return __vc_state("resistance", c, t);
}
}
#endif
#endif
