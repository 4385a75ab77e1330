// C24: steady current.
#include "thermal_contract.h"
#include "models/thermalrating/steady_cable_current_solver.h"

#define STEADY                                                                                             \
  HEAT                                                                                                     \
  SteadyCableCurrentSolver a; a.set_cable(&cable); a.set_units(u); a.set_weather(&w); a.set_temperature_cable(t);
CONTRACT K_balance(HEAT_ARGS, bool warn) {
  STEADY
  REQUIRES(s.Validate(true, nullptr));
  REQUIRES(w.temperature_air <= t);
  const CableHeatTransferState h = a.StateHeatTransfer();
  ENSURES("convection at the cable temperature", EQ(h.heat_convection, s.HeatConvection(t)));
  ENSURES("radiation at the cable temperature", EQ(h.heat_radiation, s.HeatRadiation(t)));
  ENSURES("solar heat", EQ(h.heat_solar, s.HeatSolar()));
  ENSURES("nothing stored", h.heat_storage == 0);
  ENSURES("gains equal losses", EQ(h.heat_resistance + h.heat_solar + h.heat_convection + h.heat_radiation, 0));
  const double r = cable.Resistance(t);
  REQUIRES(0 < r);
  const double i = a.Current();
  ENSURES("the current causes the resistive heat", EQ(i * i * r, h.heat_resistance < 0 ? -h.heat_resistance : h.heat_resistance));
  ENSURES("no negative current for a heat gain", h.heat_resistance < 0 || LE(0, i));
  ENSURES("negative current for a heat deficit", 0 <= h.heat_resistance || LE(i, 0));
  ENSURES("valid temperatures", !a.Validate(warn, nullptr) || (-100 <= t && t <= 500));
}
CONTRACT K_refused(HEAT_ARGS, bool warn) {
  STEADY
  REQUIRES(!s.Validate(true, nullptr));
  ENSURES("no current", a.Current() == -999999);
  ENSURES("no verdict", !a.Validate(warn, nullptr));
}
