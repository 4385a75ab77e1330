// C18: validation of the solvers whose settings may be incomplete.
#include "verdict.h"
#include "models/transmissionline/cable_unit_load_solver.h"
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "models/thermalrating/solar_radiation_solver.h"
#include "models/base/polynomial.h"

CONTRACT K_unit_load(double diameter, double weight, bool hasd, bool hasw, bool strict) {
  SAMPLE(diameter, -1, 2); SAMPLE(weight, -1, 2);
  CableUnitLoadSolver s;
  s.set_diameter_cable(hasd ? &diameter : nullptr); s.set_weight_unit_cable(hasw ? &weight : nullptr);
  const bool ok = hasd && hasw && 0 < diameter && 0 < weight;
  VERDICT(s, ok);
}
CONTRACT K_heat_transfer(const ThermalRatingCable& c, const ThermalRatingWeather& w, units::UnitSystem u, bool hasc, bool hasw, bool strict) {
  CableHeatTransferSolver s;
  s.set_cable(hasc ? &c : nullptr); s.set_units(u); s.set_weather(hasw ? &w : nullptr);
  const bool ok = hasc && hasw && u != units::UnitSystem::kNull && c.Validate(strict, nullptr) && w.Validate(strict, nullptr);
  VERDICT(s, ok);
}
CONTRACT K_solar(double cable, int day, double elevation, int hour, double latitude, AtmosphereQualityType q, units::UnitSystem u, bool strict) {
  SAMPLE(cable, -20, 400); SAMPLE(elevation, -10, 1000); SAMPLE(latitude, -100, 100);
  SAMPLE_INT(day, -2, 370); SAMPLE_INT(hour, -2, 26);
  SolarRadiationSolver s;
  s.set_azimuth_cable(cable); s.set_day(day); s.set_elevation(elevation); s.set_hour(hour); s.set_latitude(latitude);
  s.set_quality_atmosphere(q); s.set_units(u);
  const bool own = 0 <= cable && cable <= 360 && 0 < day && day <= 365 && 0 <= elevation && 0 <= hour && hour < 24 && -90 <= latitude
                   && latitude <= 90 && q != AtmosphereQualityType::kNull && u != units::UnitSystem::kNull;
  REQUIRES(!own);
  VERDICT(s, false);
}
CONTRACT K_polynomial(const std::vector<double>& c, bool has, bool strict) {
  Polynomial p;
  p.set_coefficients(has ? &c : nullptr);
  const bool ok = p.Validate(strict, nullptr);
  std::list<ErrorMessage> messages;
  ENSURES("a polynomial without coefficients is refused", has || !ok);
  ENSURES("same verdict with messages", p.Validate(strict, &messages) == ok);
}
