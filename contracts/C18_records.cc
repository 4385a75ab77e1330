// C18: validation of the plain input records.
#include "verdict.h"
#include "models/sagtension/cable_state.h"
#include "models/thermalrating/cable_heat_transfer_state.h"
#include "models/thermalrating/thermal_rating_weather.h"
#include "models/transmissionline/alignment.h"
#include "models/transmissionline/cable.h"
#include "models/transmissionline/cable_constraint.h"
#include "models/transmissionline/hardware.h"
#include "models/transmissionline/structure.h"
#include "models/transmissionline/weather_load_case.h"
#include "models/base/geometric_shapes.h"

CONTRACT K_hardware(const Hardware& h, bool strict) {
  const bool ok = 0 <= h.area_cross_section && 0 <= h.length && h.type != Hardware::HardwareType::kNull && 0 <= h.weight;
  VERDICT(h, ok);
}
CONTRACT K_weather(const WeatherLoadCase& w, bool strict) {
  const bool ok = 0 <= w.density_ice && 0 <= w.pressure_wind && -50 <= w.temperature_cable && 0 <= w.thickness_ice;
  VERDICT(w, ok);
}
CONTRACT K_structure_attachment(const StructureAttachment& a, bool strict) {
  const bool ok = 0 <= a.offset_vertical_top;
  VERDICT(a, ok);
}
CONTRACT K_cable_state(const CableState& s, bool strict) {
  const bool ok = -100 <= s.temperature && s.type_polynomial != SagTensionCableComponent::PolynomialType::kNull;
  VERDICT(s, ok);
}
CONTRACT K_cable_stretch_state(const CableStretchState& s, bool strict) {
  const bool ok = -100 <= s.temperature && s.type_polynomial != SagTensionCableComponent::PolynomialType::kNull && 0 <= s.load;
  VERDICT(s, ok);
}
CONTRACT K_heat_state(const CableHeatTransferState& s, bool strict) {
  const bool ok = s.heat_convection <= 0 && s.heat_radiation <= 0 && 0 <= s.heat_resistance && 0 <= s.heat_solar
                  && -999999 < s.heat_storage && s.heat_storage < 999999;
  VERDICT(s, ok);
}
CONTRACT K_thermal_weather(const ThermalRatingWeather& w, bool strict) {
  const bool ok = 0 <= w.angle_wind && w.angle_wind <= 90 && 0 <= w.elevation && 0 <= w.radiation_solar && 0 <= w.speed_wind
                  && -100 <= w.temperature_air && w.temperature_air <= 100;
  VERDICT(w, ok);
}
CONTRACT K_alignment_point(const AlignmentPoint& p, bool strict) {
  const bool ok = 0 <= p.elevation && -360 <= p.rotation && p.rotation <= 360 && 0 <= p.station;
  VERDICT(p, ok);
}
CONTRACT K_cylinder(double diameter, double length, bool strict) {
  SAMPLE(diameter, -2, 2); SAMPLE(length, -2, 2);
  Cylinder c;
  c.set_diameter(diameter); c.set_length(length);
  const bool ok = 0 < diameter && 0 < length;
  VERDICT(c, ok);
}
CONTRACT K_cable(const Cable& c, bool strict) {
  const bool ok = 0 <= c.area_physical && 0 < c.diameter && 0 < c.weight_unit;
  VERDICT(c, ok);
}
CONTRACT K_constraint(const CableConstraint& given, const WeatherLoadCase& w, bool present, bool strict) {
  CableConstraint c = given;
  c.case_weather = present ? &w : nullptr;
  const bool weather = present && 0 <= w.density_ice && 0 <= w.pressure_wind && -50 <= w.temperature_cable && 0 <= w.thickness_ice;
  const bool ok = weather && c.condition != CableConditionType::kNull && 0 <= c.limit && c.type_limit != CableConstraint::LimitType::kNull;
  VERDICT(c, ok);
}
// Every attachment is within its own limits and the height of the structure.
CONTRACT K_structure_messages(const Structure& s, bool strict) {
  std::list<ErrorMessage> messages;
  const bool ok = s.Validate(strict, &messages);
  ENSURES("same verdict with messages", s.Validate(strict, nullptr) == ok);
  ENSURES("no message when accepted", !ok || messages.empty());
}
static bool Told(const Structure& s, bool strict) {
  std::list<ErrorMessage> messages;
  s.Validate(strict, &messages);
  return !messages.empty();
}
CONTRACT K_structure_accepts(const Structure& s, bool strict) {
  REQUIRES(0 < s.height && 0 < s.attachments.size());
  const int n = s.attachments.size();
  REQUIRES_ALL(i, 0, n, 0 <= NTH(s.attachments, i).offset_vertical_top && NTH(s.attachments, i).offset_vertical_top <= s.height);
  VERDICT_ALONE(s, true);
}
CONTRACT K_structure_refuses(const Structure& s, bool strict) {
  const int n = s.attachments.size();
  REQUIRES(s.height <= 0 || n == 0);
  VERDICT_ALONE(s, false);
  ENSURES("a message for the rejection", Told(s, strict));
}
CONTRACT K_structure_attachment_low(const Structure& s, int i, bool strict) {
  const int n = s.attachments.size();
  SAMPLE_INT(i, 0, 3);
  REQUIRES(0 < s.height && 0 <= i && i < n && NTH(s.attachments, i).offset_vertical_top < 0);
  VERDICT_ALONE(s, false);
  ENSURES("a message for the rejection", Told(s, strict));
}
CONTRACT K_structure_attachment_high(const Structure& s, int i, bool strict) {
  const int n = s.attachments.size();
  SAMPLE_INT(i, 0, 3);
  REQUIRES(0 < s.height && 0 <= i && i < n && s.height < NTH(s.attachments, i).offset_vertical_top);
  VERDICT_ALONE(s, false);
  ENSURES("a message for the rejection", Told(s, strict));
}
