// C18: validation of line cables, sag-tension cables and thermal rating cables.
#include "verdict.h"
#include "corrector_input.h"
#include "catenary3d_contract.h"
#include "models/sagtension/sag_tension_cable.h"
#include "models/thermalrating/thermal_rating_cable.h"

// everything but the connections and the solved ruling span
static bool Weather(const WeatherLoadCase* w, bool strict) { return w != nullptr && w->Validate(strict, nullptr); }
static bool Own(const LineCable& c, bool strict) {
  const Vector3d s = c.spacing_attachments_ruling_span();
  return c.cable() != nullptr && c.cable()->Validate(strict, nullptr) && c.constraint().Validate(strict, nullptr) && 0 < s.x() && s.y() == 0
         && -2000 <= s.z() && s.z() <= 2000 && Weather(c.weathercase_stretch_creep(), strict) && Weather(c.weathercase_stretch_load(), strict);
}
CONTRACT K_line_cable_refused(const LineCable& c, bool strict) {
  REQUIRES(!Own(c, strict));
  VERDICT(c, false);
}
CONTRACT K_line_cable(const LineCable& c, bool strict) {
  REQUIRES(Own(c, strict));
  ENSURES("verdict", c.Validate(strict, nullptr) == (c.CatenaryRulingSpan().Validate(strict, nullptr) && c.ValidateConnections(strict, nullptr)));
}

CONTRACT K_thermal_component(const CableComponent& b, bool present, bool strict) {
  ThermalRatingCableComponent c;
  c.set_component_base(present ? &b : nullptr);
  const bool ok = present && 0 <= b.capacity_heat;
  VERDICT(c, ok);
}
CONTRACT K_sag_component(const CableComponent& b, bool present, bool strict) {
  SagTensionCableComponent c;
  c.set_component_base(present ? &b : nullptr);
  const bool ok = present && -0.005 < b.coefficient_expansion_linear_thermal && b.coefficient_expansion_linear_thermal <= 0.005
                  && b.coefficients_polynomial_creep.size() == 5 && b.coefficients_polynomial_loadstrain.size() == 5
                  && 0 <= b.load_limit_polynomial_creep && 0 <= b.load_limit_polynomial_loadstrain && 0 <= b.modulus_compression_elastic_area
                  && 0 <= b.modulus_tension_elastic_area && 0 <= b.scale_polynomial_x && 0 <= b.scale_polynomial_y;
  VERDICT(c, ok);
}
#define RESISTANCES const std::list<Cable::ResistancePoint>& r = b.resistances_ac; const int n = r.size();
static bool ThermalOwn(const Cable& b, bool strict) {
  return b.Validate(strict, nullptr) && 0 <= b.absorptivity && b.absorptivity <= 1 && 0 <= b.emissivity && b.emissivity <= 1
         && 0 <= b.component_core.capacity_heat && 0 <= b.component_shell.capacity_heat;
}
CONTRACT K_thermal_none(bool strict) {
  ThermalRatingCable c;
  VERDICT(c, false);
}
CONTRACT K_thermal_messages(const Cable& b, bool strict) {
  ThermalRatingCable c;
  c.set_cable_base(&b);
  MESSAGES(c)
}
CONTRACT K_thermal_accepts(const Cable& b, bool strict) {
  RESISTANCES
  REQUIRES(ThermalOwn(b, strict) && 2 <= n);
  REQUIRES_ALL(i, 1, n, NTH(r, i - 1).temperature < NTH(r, i).temperature);
  ThermalRatingCable c;
  c.set_cable_base(&b);
  VERDICT_ALONE(c, true);
}
CONTRACT K_thermal_refuses(const Cable& b, bool strict) {
  RESISTANCES
  REQUIRES(!ThermalOwn(b, strict) || n < 2);
  ThermalRatingCable c;
  c.set_cable_base(&b);
  VERDICT_ALONE(c, false);
}
CONTRACT K_thermal_order(const Cable& b, int i, bool strict) {
  RESISTANCES
  REQUIRES(0 < i && i < n && NTH(r, i).temperature <= NTH(r, i - 1).temperature);
  ThermalRatingCable c;
  c.set_cable_base(&b);
  VERDICT_ALONE(c, false);
}
CONTRACT K_sag_none(bool strict) {
  SagTensionCable c;
  VERDICT(c, false);
}
CONTRACT K_sag_cable(const Cable& b, bool strict) {
  SagTensionCable c;
  c.set_cable_base(&b);
  SagTensionCableComponent core, shell;
  core.set_component_base(&b.component_core); shell.set_component_base(&b.component_shell);
  const bool ok = b.Validate(strict, nullptr) && 0 <= b.strength_rated && 0 <= b.temperature_properties_components
                  && (!core.IsEnabled() || core.Validate(strict, nullptr)) && (!shell.IsEnabled() || shell.Validate(strict, nullptr));
  VERDICT(c, ok);
}
