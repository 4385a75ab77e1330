// C24: steady temperature.
#include "steady_contract.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"

#define DEGREES                                                                                            \
  SAMPLE(i, 0, 1500);                                                                                      \
  SteadyCableTemperatureSolver b; b.set_cable(&cable); b.set_units(u); b.set_weather(&w); b.set_current(i); \
  SteadyCableCurrentSolver a; a.set_cable(&cable); a.set_units(u); a.set_weather(&w);
CONTRACT K_state(const ThermalRatingCable& cable, units::UnitSystem u, const ThermalRatingWeather& w, double i) {
  DEGREES
  REQUIRES(b.Validate(true, nullptr));
  a.set_temperature_cable(b.TemperatureCable());
  SameHeat(b.StateHeatTransfer(), a.StateHeatTransfer());
}
CONTRACT K_exact(const ThermalRatingCable& cable, units::UnitSystem u, const ThermalRatingWeather& w) {
  double i = 0;
  DEGREES
  a.set_temperature_cable(w.temperature_air + 10);
  const double other = a.Current();
  a.set_temperature_cable(w.temperature_air);
  REQUIRES(a.Validate(false, nullptr));
  REQUIRES(other != a.Current());
#ifndef OTLS_SYMBOLIC
  REQUIRES(1 < a.Current() && 1 < std::fabs(other - a.Current()));   // rounding must not decide the search
#endif
  b.set_current(a.Current());
  ENSURES("cold cable", EQ(b.TemperatureCable(), w.temperature_air));
  SameHeat(b.StateHeatTransfer(), a.StateHeatTransfer());
}
CONTRACT K_refused(const ThermalRatingCable& cable, units::UnitSystem u, const ThermalRatingWeather& w, double i, bool nocable, bool noweather, bool warn) {
  DEGREES
  REQUIRES(nocable || noweather || u == units::UnitSystem::kNull);
  if (nocable) b.set_cable(nullptr);
  if (noweather) b.set_weather(nullptr);
  ENSURES("no temperature", b.TemperatureCable() == -999999);
  ENSURES("not valid", !b.Validate(warn, nullptr));
}
