// C18: validation of the tools over whole cables and lines whose settings are missing.
#include "verdict.h"
#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "models/sagtension/cable_elongation_model.h"
#include "models/sagtension/line_cable_sagger.h"
#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_unloader.h"
#include "models/sagging/cable_sag_position_corrector.h"
#include "models/transmissionline/cable_position_locator.h"
#include "models/transmissionline/line_structure.h"
#include "models/thermalrating/steady_cable_current_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"

CONTRACT K_strainer_limits(double length, double start, double finish, bool strict) {
  SAMPLE(length, -100, 1000); SAMPLE(start, -100, 1000); SAMPLE(finish, -100, 1000);
  REQUIRES(!(0 < length && 0 <= start && 0 <= finish));
  CableStrainer s;
  s.set_length_start(length); s.set_load_start(start); s.set_load_finish(finish);
  VERDICT(s, false);
}
CONTRACT K_strainer_models(const CableElongationModel& model, double length, double start, double finish, bool has, bool first, bool strict) {
  SAMPLE(length, -100, 1000); SAMPLE(start, -100, 1000); SAMPLE(finish, -100, 1000);
  CableStrainer s;
  s.set_length_start(length); s.set_load_start(start); s.set_load_finish(finish);
  s.set_model_start(has && first ? &model : nullptr); s.set_model_finish(has && !first ? &model : nullptr);
  VERDICT(s, false);
}
CONTRACT K_locator_none(double h, bool strict) {
  SAMPLE(h, -100, 1000);
  CablePositionLocator s;
  s.set_tension_horizontal(h);
  VERDICT(s, false);
}
CONTRACT K_sagger_none(bool strict) {
  LineCableSagger s;
  VERDICT(s, false);
}
CONTRACT K_corrector_none(bool strict) {
  CableSagPositionCorrector s;
  VERDICT(s, false);
}
CONTRACT K_reloader_none(bool strict) {
  LineCableReloader s;
  VERDICT(s, false);
}
CONTRACT K_unloader_none(bool strict) {
  LineCableUnloader s;
  VERDICT(s, false);
}
CONTRACT K_catenary_unloader_none(bool strict) {
  CatenaryCableUnloader s;
  VERDICT(s, false);
}
CONTRACT K_model_none(bool strict) {
  CableElongationModel s;
  VERDICT(s, false);
}
CONTRACT K_steady_current_none(const ThermalRatingCable& c, const ThermalRatingWeather& w, units::UnitSystem u, bool hasc, bool hasw, double t, bool strict) {
  SAMPLE(t, -20, 100);
  REQUIRES(!hasc || !hasw || u == units::UnitSystem::kNull);
  SteadyCableCurrentSolver s;
  s.set_cable(hasc ? &c : nullptr); s.set_weather(hasw ? &w : nullptr); s.set_units(u); s.set_temperature_cable(t);
  VERDICT(s, false);
}
CONTRACT K_steady_temperature_none(const ThermalRatingCable& c, const ThermalRatingWeather& w, units::UnitSystem u, bool hasc, bool hasw, double i, bool strict) {
  SAMPLE(i, -20, 100);
  REQUIRES(!hasc || !hasw);
  SteadyCableTemperatureSolver s;
  s.set_cable(hasc ? &c : nullptr); s.set_weather(hasw ? &w : nullptr); s.set_units(u); s.set_current(i);
  VERDICT(s, false);
}
CONTRACT K_transient_none(const ThermalRatingCable& c, const ThermalRatingWeather& w, units::UnitSystem u, bool hasc, bool hasw, double i, bool strict) {
  SAMPLE(i, -20, 100);
  REQUIRES(!hasc || !hasw || u == units::UnitSystem::kNull);
  TransientCableTemperatureSolver s;
  s.set_cable(hasc ? &c : nullptr); s.set_weather(hasw ? &w : nullptr); s.set_units(u); s.set_current_steady(i); s.set_current_step(i);
  VERDICT(s, false);
}
CONTRACT K_steady_current_limits(const ThermalRatingCable& c, const ThermalRatingWeather& w, units::UnitSystem u, double t, bool strict) {
  SAMPLE(t, -200, 600);
  REQUIRES(u == units::UnitSystem::kNull || !c.Validate(strict, nullptr) || !w.Validate(strict, nullptr) || t < -100 || 500 < t);
  SteadyCableCurrentSolver s;
  s.set_cable(&c); s.set_weather(&w); s.set_units(u); s.set_temperature_cable(t);
  VERDICT(s, false);
}
