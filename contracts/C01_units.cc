// C01: unit conversion scales by the defined factor raised to the exponent, inverted in a
// denominator; opposite conversions undo each other; temperatures shift between scales.
#include "spec.h"
#include "models/base/units.h"

using namespace units;

static double Powi(double f, int n) { return std::pow(f, (double)n); }
static double Val(double v) { SAMPLE(v, -1000, 1000); return v; }
static int Exp(int n) { SAMPLE_INT(n, -3, 3); return n; }

// scaled value expected for factor f
static double Want(double v, double f, int n, bool num) { return num ? v * Powi(f, n) : v * (1 / Powi(f, n)); }

#define FACTOR(FN, TYPE, F) ENSURES(#TYPE, EQ(FN(v, TYPE, n, num), Want(v, F, n, num)))

CONTRACT K_angle(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  FACTOR(ConvertAngle, AngleConversionType::kDegreesToRadians, SPEC_PI / 180);
  FACTOR(ConvertAngle, AngleConversionType::kRadiansToDegrees, 180 / SPEC_PI);
}
CONTRACT K_force(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  FACTOR(ConvertForce, ForceConversionType::kPoundsToNewtons, 4.4482216152605);
  FACTOR(ConvertForce, ForceConversionType::kNewtonsToPounds, 1 / 4.4482216152605);
}
CONTRACT K_length(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  FACTOR(ConvertLength, LengthConversionType::kCentimetersToMeters, 0.01);
  FACTOR(ConvertLength, LengthConversionType::kFeetToInches, 12.0);
  FACTOR(ConvertLength, LengthConversionType::kFeetToMeters, 0.3048);
  FACTOR(ConvertLength, LengthConversionType::kFeetToMiles, 1 / 5280.0);
  FACTOR(ConvertLength, LengthConversionType::kInchesToFeet, 1 / 12.0);
  FACTOR(ConvertLength, LengthConversionType::kKilometersToMeters, 1000.0);
}
CONTRACT K_length_more(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  FACTOR(ConvertLength, LengthConversionType::kMetersToCentimeters, 100.0);
  FACTOR(ConvertLength, LengthConversionType::kMetersToFeet, 1 / 0.3048);
  FACTOR(ConvertLength, LengthConversionType::kMetersToKilometers, 0.001);
  FACTOR(ConvertLength, LengthConversionType::kMetersToMillimeters, 1000.0);
  FACTOR(ConvertLength, LengthConversionType::kMilesToFeet, 5280.0);
  FACTOR(ConvertLength, LengthConversionType::kMillimetersToMeters, 0.001);
}
CONTRACT K_stress(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  FACTOR(ConvertStress, StressConversionType::kMegaPascalToPascal, 1000000.0);
  FACTOR(ConvertStress, StressConversionType::kPascalToMegaPascal, 0.000001);
  FACTOR(ConvertStress, StressConversionType::kPascalToPsf, 1 / 47.88026);
  FACTOR(ConvertStress, StressConversionType::kPsfToPascal, 47.88026);
  FACTOR(ConvertStress, StressConversionType::kPsfToPsi, 1 / 144.0);
  FACTOR(ConvertStress, StressConversionType::kPsiToPsf, 144.0);
}

// opposite conversions, any exponent and position
#define INVERSE(FN, A, Z)                                  \
  ENSURES(#A " undone by " #Z, EQ(FN(FN(v, A, n, num), Z, n, num), v)); \
  ENSURES(#Z " undone by " #A, EQ(FN(FN(v, Z, n, num), A, n, num), v));

CONTRACT K_inverse_angle_force(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  INVERSE(ConvertAngle, AngleConversionType::kDegreesToRadians, AngleConversionType::kRadiansToDegrees)
  INVERSE(ConvertForce, ForceConversionType::kNewtonsToPounds, ForceConversionType::kPoundsToNewtons)
}
CONTRACT K_inverse_length(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  INVERSE(ConvertLength, LengthConversionType::kCentimetersToMeters, LengthConversionType::kMetersToCentimeters)
  INVERSE(ConvertLength, LengthConversionType::kFeetToInches, LengthConversionType::kInchesToFeet)
  INVERSE(ConvertLength, LengthConversionType::kFeetToMeters, LengthConversionType::kMetersToFeet)
  INVERSE(ConvertLength, LengthConversionType::kFeetToMiles, LengthConversionType::kMilesToFeet)
  INVERSE(ConvertLength, LengthConversionType::kKilometersToMeters, LengthConversionType::kMetersToKilometers)
  INVERSE(ConvertLength, LengthConversionType::kMetersToMillimeters, LengthConversionType::kMillimetersToMeters)
}
CONTRACT K_inverse_stress(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  INVERSE(ConvertStress, StressConversionType::kMegaPascalToPascal, StressConversionType::kPascalToMegaPascal)
  INVERSE(ConvertStress, StressConversionType::kPascalToPsf, StressConversionType::kPsfToPascal)
  INVERSE(ConvertStress, StressConversionType::kPsfToPsi, StressConversionType::kPsiToPsf)
}
// a unit in the denominator converts by the reciprocal factor
CONTRACT K_denominator(double v, LengthConversionType t, ForceConversionType f, StressConversionType s,
                       AngleConversionType a, int n) {
  v = Val(v); n = Exp(n);
  REQUIRES(t != LengthConversionType::kNull && f != ForceConversionType::kNull &&
           s != StressConversionType::kNull && a != AngleConversionType::kNull);
  ENSURES("length", EQ(ConvertLength(ConvertLength(v, t, n, true), t, n, false), v));
  ENSURES("force", EQ(ConvertForce(ConvertForce(v, f, n, true), f, n, false), v));
  ENSURES("stress", EQ(ConvertStress(ConvertStress(v, s, n, true), s, n, false), v));
  ENSURES("angle", EQ(ConvertAngle(ConvertAngle(v, a, n, true), a, n, false), v));
}
// conversion is linear in the value; the default is a plain unit in a numerator
CONTRACT K_defaults(double v, LengthConversionType t, ForceConversionType f, StressConversionType s,
                    AngleConversionType a) {
  v = Val(v);
  ENSURES("length default", EQ(ConvertLength(v, t), ConvertLength(v, t, 1, true)));
  ENSURES("force default", EQ(ConvertForce(v, f), ConvertForce(v, f, 1, true)));
  ENSURES("stress default", EQ(ConvertStress(v, s), ConvertStress(v, s, 1, true)));
  ENSURES("angle default", EQ(ConvertAngle(v, a), ConvertAngle(v, a, 1, true)));
  ENSURES("feet to meters", EQ(ConvertLength(v, LengthConversionType::kFeetToMeters), v * 0.3048));
  ENSURES("pounds to newtons", EQ(ConvertForce(v, ForceConversionType::kPoundsToNewtons), v * 4.4482216152605));
  ENSURES("degrees to radians", EQ(ConvertAngle(v, AngleConversionType::kDegreesToRadians), v * SPEC_PI / 180));
}
CONTRACT K_null(double v, int n, bool num) {
  v = Val(v); n = Exp(n);
  ENSURES("length", EQ(ConvertLength(v, LengthConversionType::kNull, n, num), -999999));
  ENSURES("force", EQ(ConvertForce(v, ForceConversionType::kNull, n, num), -999999));
  ENSURES("stress", EQ(ConvertStress(v, StressConversionType::kNull, n, num), -999999));
  ENSURES("angle", EQ(ConvertAngle(v, AngleConversionType::kNull, n, num), -999999));
  ENSURES("temperature", EQ(ConvertTemperature(v, TemperatureConversionType::kNull, n, num), -999999));
}
// temperatures
CONTRACT K_temperature(double v) {
  v = Val(v);
  typedef TemperatureConversionType T;
  ENSURES("C to F", EQ(ConvertTemperature(v, T::kCelsiusToFahrenheit), v * 1.8 + 32));
  ENSURES("C to K", EQ(ConvertTemperature(v, T::kCelsiusToKelvin), v + 273.15));
  ENSURES("F to C", EQ(ConvertTemperature(v, T::kFahrenheitToCelsius), (v - 32) / 1.8));
  ENSURES("F to R", EQ(ConvertTemperature(v, T::kFahrenheitToRankine), v + 459.67));
  ENSURES("K to C", EQ(ConvertTemperature(v, T::kKelvinToCelsius), v - 273.15));
  ENSURES("K to R", EQ(ConvertTemperature(v, T::kKelvinToRankine), v * 1.8));
  ENSURES("R to F", EQ(ConvertTemperature(v, T::kRankineToFahrenheit), v - 459.67));
  ENSURES("R to K", EQ(ConvertTemperature(v, T::kRankineToKelvin), v / 1.8));
}
CONTRACT K_temperature_inverse(double v) {
  v = Val(v);
  typedef TemperatureConversionType T;
#define TINV(A, Z) ENSURES(#A " undone by " #Z, EQ(ConvertTemperature(ConvertTemperature(v, A), Z), v)); \
  ENSURES(#Z " undone by " #A, EQ(ConvertTemperature(ConvertTemperature(v, Z), A), v));
  TINV(T::kCelsiusToFahrenheit, T::kFahrenheitToCelsius)
  TINV(T::kCelsiusToKelvin, T::kKelvinToCelsius)
  TINV(T::kFahrenheitToRankine, T::kRankineToFahrenheit)
  TINV(T::kKelvinToRankine, T::kRankineToKelvin)
  // both routes from Celsius to Rankine
  ENSURES("Celsius to Rankine through Kelvin and through Fahrenheit",
          EQ(ConvertTemperature(ConvertTemperature(v, T::kCelsiusToKelvin), T::kKelvinToRankine),
             ConvertTemperature(ConvertTemperature(v, T::kCelsiusToFahrenheit), T::kFahrenheitToRankine)));
}
