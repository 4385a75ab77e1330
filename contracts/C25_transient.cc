// C25: transient temperatures.
#include "degrees_contract.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"

#define TRANSIENT                                                                                         \
  SAMPLE(i0, 0, 1500); SAMPLE(i1, 0, 3000); SAMPLE_INT(n, 0, 10);                                         \
  TransientCableTemperatureSolver s; s.set_cable(&cable); s.set_current_steady(i0); s.set_current_step(i1); \
  s.set_duration(n); s.set_units(u); s.set_weather(&w);                                                   \
  SteadyCableTemperatureSolver d; d.set_cable(&cable); d.set_current(i0); d.set_units(u); d.set_weather(&w); \
  CableHeatTransferSolver h; h.set_cable(&cable); h.set_units(u); h.set_weather(&w);
#define TRANSIENT_ARGS const ThermalRatingCable& cable, double i0, double i1, int n, units::UnitSystem u, const ThermalRatingWeather& w

CONTRACT K_points(TRANSIENT_ARGS, int k) {
  TRANSIENT
  SAMPLE_INT(k, 0, 10);
  const std::list<TemperaturePoint>* p = s.PointsTemperature();
  if (p == nullptr || n < 0) return;
  ENSURES("one point per time", static_cast<int>(p->size()) == n + 1);
  ENSURES("starts at zero", NTH(*p, 0).time == 0);
  ENSURES("starts at the steady temperature", EQ(NTH(*p, 0).temperature, d.TemperatureCable()));
  if (k < 0 || n < k) return;
  ENSURES("time", NTH(*p, k).time == k);
}
CONTRACT K_step(TRANSIENT_ARGS, int k) {
  UNFOLD_LOOPS;
  TRANSIENT
  SAMPLE_INT(k, 0, 10);
  const std::list<TemperaturePoint>* p = s.PointsTemperature();
  if (p == nullptr || k < 0 || n <= k) return;
  const double capacity = *cable.component_core()->capacity_heat() + *cable.component_shell()->capacity_heat();
  REQUIRES(0 < capacity);
  const double t = NTH(*p, k).temperature;
  ENSURES("temperature change", EQ(NTH(*p, k + 1).temperature,
      t + (i1 * i1 * cable.Resistance(t) + h.HeatSolar() + h.HeatConvection(t) + h.HeatRadiation(t)) / capacity));
}
CONTRACT K_answered(TRANSIENT_ARGS, bool warn) {
  TRANSIENT
  const bool ready = h.Validate(true, nullptr) && d.TemperatureCable() != -999999;
  REQUIRES(0 <= n);
  ENSURES("answered when the cable can be heated", (s.PointsTemperature() != nullptr) == ready);
  ENSURES("not valid without an answer", ready || !s.Validate(warn, nullptr));
}
CONTRACT K_refused(TRANSIENT_ARGS, bool nocable, bool noweather, bool warn) {
  TRANSIENT
  REQUIRES(nocable || noweather || u == units::UnitSystem::kNull || i0 < 0 || i1 < 0 || n < 0);
  if (nocable) s.set_cable(nullptr);
  if (noweather) s.set_weather(nullptr);
  ENSURES("not valid", !s.Validate(warn, nullptr));
  ENSURES("no points", (!nocable && !noweather && u != units::UnitSystem::kNull) || s.PointsTemperature() == nullptr);
}
