// C18: validation of the thermal rating solvers outside their limits.
#include "verdict.h"
#include "steady_contract.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"

CONTRACT K_steady_temperature_limits(const ThermalRatingCable& c, const ThermalRatingWeather& w, units::UnitSystem u, double i, bool strict) {
  SAMPLE(i, -20, 100);
  REQUIRES(i < 0 || u == units::UnitSystem::kNull || !c.Validate(strict, nullptr) || !w.Validate(strict, nullptr));
  SteadyCableTemperatureSolver s;
  s.set_cable(&c); s.set_weather(&w); s.set_units(u); s.set_current(i);
  VERDICT(s, false);
}
CONTRACT K_transient_limits(const ThermalRatingCable& c, const ThermalRatingWeather& w, units::UnitSystem u, double i, double j, int d, bool strict) {
  SAMPLE(i, -20, 100); SAMPLE(j, -20, 100); SAMPLE_INT(d, -20, 100);
  REQUIRES(i < 0 || j < 0 || d < 0 || u == units::UnitSystem::kNull || !w.Validate(strict, nullptr));
  TransientCableTemperatureSolver s;
  s.set_cable(&c); s.set_weather(&w); s.set_units(u); s.set_current_steady(i); s.set_current_step(j); s.set_duration(d);
  VERDICT(s, false);
}
