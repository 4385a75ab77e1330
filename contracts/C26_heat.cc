// C26: heat terms of a bare cable (IEEE 738) and resistance between given points.
#include "spec.h"
#include "models/thermalrating/cable_heat_transfer_solver.h"

#define RIG                                                                                                   \
  SAMPLE(d, 0.01, 0.1); SAMPLE(eps, 0, 1); SAMPLE(abso, 0, 1); SAMPLE(wind, 0, 20); SAMPLE(angle, 0, 90);     \
  SAMPLE(height, 0, 2000); SAMPLE(sun, 0, 1000); SAMPLE(air, -40, 50); SAMPLE(t, -40, 250);                   \
  const bool metric = u == units::UnitSystem::kMetric;                                                        \
  REQUIRES(metric || u == units::UnitSystem::kImperial);                                                      \
  Cable base; base.diameter = d; base.emissivity = eps; base.absorptivity = abso;                             \
  ThermalRatingCable cable; cable.set_cable_base(&base);                                                      \
  ThermalRatingWeather w; w.angle_wind = angle; w.elevation = height; w.radiation_solar = sun; w.speed_wind = wind; w.temperature_air = air; \
  CableHeatTransferSolver s; s.set_cable(&cable); s.set_units(u); s.set_weather(&w);
#define ARGS double d, double eps, double abso, double wind, double angle, double height, double sun, double air, double t, units::UnitSystem u

static double Larger(double a, double b) { return a < b ? b : a; }
CONTRACT K_convection(ARGS) {
  RIG
  REQUIRES(0 < d && 0 <= wind && 0 <= height && air <= t && -100 <= air && t <= 500);
  const double film = (t + air) / 2;
  const double conductivity = metric ? 0.02424 + 0.00007477 * film - 0.000000004407 * film * film
                                     : 0.007388 + 0.00002279 * film - 0.000000001343 * film * film;
  const double density = (metric ? 1.293 - 0.0001525 * height + 0.000000006379 * height * height
                                 : 0.080695 - 0.000002901 * height + 0.000000000037 * height * height) / (1 + 0.00367 * film);
  const double viscosity = (metric ? 0.000001458 : 0.00353 / 3600) * std::pow(film + 273, 1.5) / (film + 383.4);
  const double a = angle * SPEC_PI / 180;
  const double direction = 1.194 - std::cos(a) + 0.194 * std::cos(2 * a) + 0.368 * std::sin(2 * a);
  const double reynolds = d * density * wind / viscosity;
  const double slow = direction * (1.01 + 1.35 * std::pow(reynolds, 0.52)) * conductivity * (t - air);
  const double fast = direction * 0.754 * std::pow(reynolds, 0.6) * conductivity * (t - air);
  const double natural = (metric ? 3.645 : 1.825) * std::sqrt(density) * std::pow(d, 0.75) * std::pow(t - air, 1.25);
  ENSURES("largest of natural and forced convection, outwards", EQ(s.HeatConvection(t), -Larger(natural, Larger(slow, fast))));
}
CONTRACT K_radiation(ARGS) {
  RIG
  const double k = (t + 273) / 100, l = (air + 273) / 100;
  ENSURES("fourth powers of the temperatures", EQ(s.HeatRadiation(t), -(metric ? 17.8 : 1.656) * d * eps * (k * k * k * k - l * l * l * l)));
  ENSURES("nothing between equal temperatures", s.HeatRadiation(air) == 0);
}
LEMMA_FN L_fourth(double a, double b) {
  REQUIRES(0 <= a && a <= b);
  ENSURES("squares", a * a <= b * b);
  ENSURES("fourth powers", a * a * a * a <= b * b * b * b);
}
LEMMA_FN L_product(double a, double b) {
  REQUIRES(0 <= a && 0 <= b);
  ENSURES("product", 0 <= a * b);
}
CONTRACT K_radiation_sign(ARGS) {
  RIG
  REQUIRES(0 <= d && 0 <= eps && -273 <= air && air <= t);
#ifdef OTLS_SYMBOLIC
  const double k = (t + 273) / 100, l = (air + 273) / 100;
  L_fourth(l, k);
  L_product(d, eps);
  L_product(d * eps, k * k * k * k - l * l * l * l);
#endif
  ENSURES("a warmer cable radiates", LE(s.HeatRadiation(t), 0));
}
CONTRACT K_sun(ARGS) {
  RIG
  ENSURES("radiation on the projected area", EQ(s.HeatSolar(), abso * sun * d));
}
CONTRACT K_stored(double in, double out) {
  SAMPLE(in, 0, 100); SAMPLE(out, -100, 0);
  CableHeatTransferSolver s;
  ENSURES("gain plus (negative) loss", EQ(s.HeatStored(in, out), in + out));
}
CONTRACT K_resistance_heat(const Cable& base, double t, double i, units::UnitSystem u) {
  SAMPLE(t, -20, 250); SAMPLE(i, 0, 3000);
  ThermalRatingCable cable; cable.set_cable_base(&base);
  CableHeatTransferSolver s; s.set_cable(&cable); s.set_units(u);
  ENSURES("current squared times resistance", EQ(s.HeatResistance(t, i), i * i * cable.Resistance(t)));
}
// resistance between and beyond the points
typedef std::list<Cable::ResistancePoint> Points;
static double On(const Cable::ResistancePoint& a, const Cable::ResistancePoint& b, double t) {
  return a.resistance + (b.resistance - a.resistance) / (b.temperature - a.temperature) * (t - a.temperature);
}
static bool Sorted(const Points& l, int i) { return NTH(l, i).temperature < NTH(l, i + 1).temperature; }
#define POINTS                                                          \
  const Points& l = base.resistances_ac;                                \
  const int n = l.size();                                               \
  ThermalRatingCable cable; cable.set_cable_base(&base);                \
  REQUIRES_ALL(i, 0, n - 1, Sorted(l, i));
CONTRACT K_resistance_between(const Cable& base, double t, int k) {
  POINTS
  SAMPLE_INT(k, 0, n - 2); SAMPLE(t, -20, 250);
  REQUIRES(0 <= k && k + 1 < n);
  REQUIRES_ALL(i, 0, k, NTH(l, i + 1).temperature <= NTH(l, k).temperature);
  REQUIRES(NTH(l, k).temperature < t && t < NTH(l, k + 1).temperature);
  ENSURES("on the segment", EQ(cable.Resistance(t), On(NTH(l, k), NTH(l, k + 1), t)));
}
CONTRACT K_resistance_at(const Cable& base, int k) {
  POINTS
  SAMPLE_INT(k, 0, n - 1);
  REQUIRES(2 <= n && 0 <= k && k < n);
  REQUIRES_ALL(i, 0, n, i >= k || NTH(l, i).temperature < NTH(l, k).temperature);
  REQUIRES_ALL(i, 0, n, i <= k || NTH(l, i).temperature > NTH(l, k).temperature);
  ENSURES("the point itself", EQ(cable.Resistance(NTH(l, k).temperature), NTH(l, k).resistance));
}
CONTRACT K_resistance_below(const Cable& base, double t) {
  POINTS
  SAMPLE(t, -100, 50);
  REQUIRES(2 <= n && t <= NTH(l, 0).temperature);
  ENSURES("first segment extended", EQ(cable.Resistance(t), On(NTH(l, 0), NTH(l, 1), t)));
}
CONTRACT K_resistance_above(const Cable& base, double t) {
  POINTS
  SAMPLE(t, -20, 400);
  REQUIRES(2 <= n);
  REQUIRES_ALL(i, 0, n, NTH(l, i).temperature <= t);
  ENSURES("last segment extended", EQ(cable.Resistance(t), On(NTH(l, n - 2), NTH(l, n - 1), t)));
}
