// C18: the verdict is the same with and without a message list, and the list is empty exactly when accepted.
#include "verdict.h"
#include "corrector_input.h"
#include "catenary3d_contract.h"
#include "models/transmissionline/cable_attachment_equilibrium_solver.h"
#include "models/transmissionline/catenary_solver.h"
#include "models/thermalrating/solar_radiation_solver.h"
#include "models/base/polynomial.h"
#define CONSISTENT(object)                                                                          \
  const bool ok = (object).Validate(strict, nullptr);                                               \
  std::list<ErrorMessage> messages;                                                                 \
  ENSURES("same verdict with messages", (object).Validate(strict, &messages) == ok);                \
  ENSURES("a message for a rejection", messages.empty() == ok);
CONTRACT K_catenary(const Catenary2d& c, bool strict) { CONSISTENT(c) }
CONTRACT K_solver(const CatenarySolver& c, bool strict) { CONSISTENT(c) }
CONTRACT K_equilibrium(const Catenary3d& back, const Catenary3d& ahead, bool hasb, bool hasa, double between, double hardware,
                       AxisDirectionType d, bool strict) {
  SAMPLE(between, 0, 180); SAMPLE(hardware, 0, 180);
  CableAttachmentEquilibriumSolver s;
  s.set_catenary_back(hasb ? &back : nullptr); s.set_catenary_ahead(hasa ? &ahead : nullptr);
  s.set_angle_catenaries(between); s.set_angle_hardware(hardware); s.set_direction_catenaries(d);
  CONSISTENT(s)
}
CONTRACT K_solar(double cable, int day, double elevation, int hour, double latitude, AtmosphereQualityType q, units::UnitSystem u, bool strict) {
  SAMPLE(cable, 0, 360); SAMPLE(elevation, 0, 1000); SAMPLE(latitude, -90, 90);
  SAMPLE_INT(day, 1, 365); SAMPLE_INT(hour, 0, 23);
  SolarRadiationSolver s;
  s.set_azimuth_cable(cable); s.set_day(day); s.set_elevation(elevation); s.set_hour(hour); s.set_latitude(latitude);
  s.set_quality_atmosphere(q); s.set_units(u);
  CONSISTENT(s)
}
CONTRACT K_polynomial(const std::vector<double>& c, bool has, bool strict) {
  Polynomial p;
  p.set_coefficients(has ? &c : nullptr);
  CONSISTENT(p)
}
CONTRACT K_line_cable(const LineCable& c, bool strict) { CONSISTENT(c) }
