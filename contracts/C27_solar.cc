// C27: sun position and solar radiation.
#include "spec.h"
#include "models/thermalrating/solar_radiation_solver.h"

static double Rad(double degrees) { return degrees * SPEC_PI / 180; }
struct Place { double cable; int day; double elevation; int hour; double latitude; AtmosphereQualityType q; units::UnitSystem u; };
static void Apply(SolarRadiationSolver& s, const Place& p) {
  s.set_azimuth_cable(p.cable); s.set_day(p.day); s.set_elevation(p.elevation); s.set_hour(p.hour); s.set_latitude(p.latitude);
  s.set_quality_atmosphere(p.q); s.set_units(p.u);
}
static double Declination(const Place& p) { return Rad(23.46 * std::sin(Rad((284.0 + p.day) / 365 * 360))); }
static double AngleHour(const Place& p) { return Rad((p.hour - 12) * 15); }
#define PLACE                                                                                     \
  SAMPLE(cable, 0, 360); SAMPLE_INT(day, 1, 365); SAMPLE(elevation, 0, 3000); SAMPLE_INT(hour, 0, 23); SAMPLE(latitude, -90, 90); \
  REQUIRES(q == AtmosphereQualityType::kClear || q == AtmosphereQualityType::kIndustrial);        \
  REQUIRES(u == units::UnitSystem::kImperial || u == units::UnitSystem::kMetric);                 \
  Place p; p.cable = cable; p.day = day; p.elevation = elevation; p.hour = hour; p.latitude = latitude; p.q = q; p.u = u; \
  SolarRadiationSolver s; Apply(s, p);
CONTRACT K_altitude(double cable, int day, double elevation, int hour, double latitude, AtmosphereQualityType q, units::UnitSystem u) {
  PLACE
  const double d = Declination(p), w = AngleHour(p), l = Rad(latitude);
  ENSURES("altitude of the sun", EQ(Rad(s.AltitudeSun()), std::asin(std::cos(l) * std::cos(d) * std::cos(w) + std::sin(l) * std::sin(d))));
}
CONTRACT K_azimuth(double cable, int day, double elevation, int hour, double latitude, AtmosphereQualityType q, units::UnitSystem u) {
  PLACE
  REQUIRES(0 < hour && hour < 24 && hour != 12);
  const double d = Declination(p), w = AngleHour(p), l = Rad(latitude);
  const double north = std::sin(l) * std::cos(w) - std::cos(l) * std::tan(d);
  const double z = s.AzimuthSun();
  REQUIRES(NEQ(north, 0));
#ifndef OTLS_SYMBOLIC
  REQUIRES(0.05 < std::fabs(north));   // away from east and west, where rounding of the tangent has no bound
#endif
  ENSURES("in the east before noon", hour > 12 || (LE(0, z) && LE(z, 180)));
  ENSURES("in the west after noon", hour < 12 || (LE(180, z) && LE(z, 360)));
  ENSURES("direction", EQ(std::tan(Rad(z)), std::sin(w) / north));
}

// coefficients of the atmosphere polynomial
static double Sky(const Place& p, double h) {
  const bool clear = p.q == AtmosphereQualityType::kClear;
  double a, b, c, d, e, f, g;
  if (p.u == units::UnitSystem::kMetric) {
    if (clear) { a = -42.2391; b = 63.8044; c = -1.9220; d = 0.0346921; e = -0.000361118; f = 0.00000194318; g = -0.00000000407608; }
    else { a = 53.1821; b = 14.2110; c = 0.66138; d = -0.031658; e = 0.00054654; f = -0.0000043446; g = 0.000000013236; }
  } else {
    if (clear) { a = -3.9241; b = 5.9276; c = -0.17856; d = 0.003223; e = -0.000033549; f = 0.00000018053; g = -0.00000000037868; }
    else { a = 4.9408; b = 1.3202; c = 0.061444; d = -0.0029411; e = 0.0000507752; f = -0.000000403627; g = 0.00000000122967; }
  }
  return a + h * (b + h * (c + h * (d + h * (e + h * (f + h * g)))));
}
static double Height(const Place& p) {
  const double e = p.elevation;
  return p.u == units::UnitSystem::kMetric ? 1 + 0.0001148 * e - 0.00000001108 * e * e : 1 + 0.000035 * e - 0.000000001 * e * e;
}
CONTRACT K_radiation(double cable, int day, double elevation, int hour, double latitude, AtmosphereQualityType q, units::UnitSystem u) {
  PLACE
  const double h = s.AltitudeSun(), z = s.AzimuthSun();
  const double g = std::acos(std::cos(Rad(h)) * std::cos(Rad(z) - Rad(cable)));
  if (0 < h) {
    ENSURES("radiation on the cable", EQT(s.Radiation(), Sky(p, h) * std::sin(g) * Height(p), 1e-6));
  } else {
    ENSURES("no radiation at night", s.Radiation() == 0);
  }
}
CONTRACT K_asked_again(double cable, int day, double elevation, int hour, double latitude, AtmosphereQualityType q, units::UnitSystem u) {
  PLACE
  const double r = s.Radiation(), h = s.AltitudeSun(), z = s.AzimuthSun();
  ENSURES("same answers", EQ(s.Radiation(), r) && EQ(s.AltitudeSun(), h) && EQ(s.AzimuthSun(), z));
  ENSURES("settings kept", EQ(s.azimuth_cable(), cable) && s.day() == day && EQ(s.elevation(), elevation) && s.hour() == hour
          && EQ(s.latitude(), latitude) && s.quality() == q && s.units() == u);
}
CONTRACT K_refused(double cable, int day, double elevation, int hour, double latitude, AtmosphereQualityType q, units::UnitSystem u) {
  SAMPLE_INT(hour, 0, 23); SAMPLE_INT(day, 1, 365);
  REQUIRES(q == AtmosphereQualityType::kNull || u == units::UnitSystem::kNull);
  Place p; p.cable = cable; p.day = day; p.elevation = elevation; p.hour = hour; p.latitude = latitude; p.q = q; p.u = u;
  SolarRadiationSolver s; Apply(s, p);
  ENSURES("no sun without atmosphere and units", s.Radiation() == -999999 && s.AltitudeSun() == -999999 && s.AzimuthSun() == -999999);
}
