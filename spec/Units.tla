------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* C30.  The engineering units of ANSI/ASHRAE 135 by number, and the names *)
(* of the object types, as the library writes them for its user.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Units0 == <<
     "SquareMeters", "SquareFeet", "Milliamperes", "Amperes", "Ohms", "Volts", "Kilovolts", "Megavolts", "VoltAmperes", "KilovoltAmperes",
     "MegavoltAmperes", "VoltAmperesReactive", "KilovoltAmperesReactive", "MegavoltAmperesReactive", "DegreesPhase", "PowerFactor", "Joules",
     "Kilojoules", "WattHours", "KilowattHours", "Btus", "Therms", "TonHours", "JoulesPerKilogramDryAir", "BtusPerPoundDryAir", "CyclesPerHour",
     "CyclesPerMinute", "Hertz", "GramsOfWaterPerKilogramDryAir", "PercentRelativeHumidity", "Millimeters", "Meters", "Inches", "Feet",
     "WattsPerSquareFoot", "WattsPerSquareMeter", "Lumens", "Luxes", "FootCandles", "Kilograms", "PoundsMass", "Tons", "KilogramsPerSecond",
     "KilogramsPerMinute", "KilogramsPerHour", "PoundsMassPerMinute", "PoundsMassPerHour", "Watts", "Kilowatts", "Megawatts", "BtusPerHour",
     "Horsepower", "TonsRefrigeration", "Pascals", "Kilopascals", "Bars", "PoundsForcePerSquareInch", "CentimetersOfWater", "InchesOfWater",
     "MillimetersOfMercury", "CentimetersOfMercury", "InchesOfMercury", "DegreesCelsius", "DegreesKelvin", "DegreesFahrenheit", "DegreeDaysCelsius",
     "DegreeDaysFahrenheit", "Years", "Months", "Weeks", "Days", "Hours", "Minutes", "Seconds", "MetersPerSecond", "KilometersPerHour",
     "FeetPerSecond", "FeetPerMinute", "MilesPerHour", "CubicFeet", "CubicMeters", "ImperialGallons", "Liters", "UsGallons", "CubicFeetPerMinute",
     "CubicMetersPerSecond", "ImperialGallonsPerMinute", "LitersPerSecond", "LitersPerMinute", "USGallonsPerMinute", "DegreesAngular",
     "DegreesCelsiusPerHour", "DegreesCelsiusPerMinute", "DegreesFahrenheitPerHour", "DegreesFahrenheitPerMinute", "NoUnits", "PartsPerMillion",
     "PartsPerBillion", "Percent", "PercentPerSecond", "PerMinute", "PerSecond", "PsiPerDegreeFahrenheit", "Radians", "RevolutionsPerMinute">>
Units115 == <<
     "SquareInches", "SquareCentimeters", "BtusPerPound", "Centimeters", "PoundsMassPerSecond", "DeltaDegreesFahrenheit", "DeltaDegreesKelvin",
     "Kilohms", "Megohms", "Millivolts", "KilojoulesPerKilogram", "Megajoules", "JoulesPerDegreeKelvin", "JoulesPerKilogramDegreeKelvin",
     "Kilohertz", "Megahertz", "PerHour", "Milliwatts", "Hectopascals", "Millibars", "CubicMetersPerHour", "LitersPerHour", "KwHoursPerSquareMeter",
     "KwHoursPerSquareFoot", "MegajoulesPerSquareMeter", "MegajoulesPerSquareFoot", "WattsPerSquareMeterDegreeKelvin", "CubicFeetPerSecond",
     "PercentObscurationPerFoot", "PercentObscurationPerMeter", "Milliohms", "MegawattHours", "KiloBtus", "MegaBtus", "KilojoulesPerKilogramDryAir",
     "MegajoulesPerKilogramDryAir", "KilojoulesPerDegreeKelvin", "MegajoulesPerDegreeKelvin", "Newton", "GramsPerSecond", "GramsPerMinute",
     "TonsPerHour", "KiloBtusPerHour", "HundredthsSeconds", "Milliseconds", "NewtonMeters", "MillimetersPerSecond", "MillimetersPerMinute",
     "MetersPerMinute", "MetersPerHour", "CubicMetersPerMinute", "MetersPerSecondPerSecond", "AmperesPerMeter", "AmperesPerSquareMeter",
     "AmpereSquareMeters", "Farads", "Henrys", "OhmMeters", "Siemens", "SiemensPerMeter", "Teslas", "VoltsPerDegreeKelvin", "VoltsPerMeter",
     "Webers", "Candelas", "CandelasPerSquareMeter", "DegreesKelvinPerHour", "DegreesKelvinPerMinute", "JouleSeconds", "RadiansPerSecond",
     "SquareMetersPerNewton", "KilogramsPerCubicMeter", "NewtonSeconds", "NewtonsPerMeter", "WattsPerMeterPerDegreeKelvin", "Microsiemens",
     "CubicFeetPerHour", "USGallonsPerHour", "Kilometers", "Micrometers", "Grams", "Milligrams", "Milliliters", "MillilitersPerSecond", "Decibels",
     "DecibelsMillivolt", "DecibelsVolt", "Millisiemens", "WattHoursReactive", "KilowattHoursReactive", "MegawattHoursReactive",
     "MillimetersOfWater", "PerMille", "GramsPerGram", "KilogramsPerKilogram", "GramsPerKilogram", "MilligramsPerGram", "MilligramsPerKilogram",
     "GramsPerMilliliter", "GramsPerLiter", "MilligramsPerLiter", "MicrogramsPerLiter", "GramsPerCubicMeter", "MilligramsPerCubicMeter",
     "MicrogramsPerCubicMeter", "NanogramsPerCubicMeter", "GramsPerCubicCentimeter", "Becquerels">>
Units224 == <<
     "Megabecquerels", "Gray", "Milligray", "Microgray", "Sieverts", "Millisieverts", "Microsieverts", "MicrosievertsPerHour", "DecibelsA",
     "NephelometricTurbidityUnit", "Ph", "GramsPerSquareMeter", "MinutesPerDegreeKelvin">>
\* a number without a name: the text must say the number and be nobody else's name
UnitNames == {Units0[i] : i \in 1..Len(Units0)} \cup {Units115[i] : i \in 1..Len(Units115)} \cup {Units224[i] : i \in 1..Len(Units224)}
UnitNamed(n) == n <= 104 \/ n \in 115..222 \/ n \in 224..236
UnitName(n) == IF n <= 104 THEN Units0[n + 1] ELSE IF n \in 115..222 THEN Units115[n - 114] ELSE Units224[n - 223]
TypeNames == [x \in {0, 1, 2, 3, 4, 5, 8, 10, 13, 14, 15, 19, 20, 40} |->
  CASE x = 0 -> "AnalogInput" [] x = 1 -> "AnalogOutput" [] x = 2 -> "AnalogValue" [] x = 3 -> "BinaryInput" [] x = 4 -> "BinaryOutput"
    [] x = 5 -> "BinaryValue" [] x = 8 -> "Device" [] x = 10 -> "File" [] x = 13 -> "MultiStateInput" [] x = 14 -> "MultiStateOutput"
    [] x = 15 -> "NotificationClass" [] x = 19 -> "MultiStateValue" [] x = 20 -> "TrendLog" [] OTHER -> "CharacterString"]
AllTypeNames == {TypeNames[x] : x \in DOMAIN TypeNames}
\* text s for the unit n, a number of four octets
UnitTextOk(n, s) == IF n[1] = 0 /\ n[2] = 0 /\ UnitNamed(n[3] * 256 + n[4]) THEN s = UnitName(n[3] * 256 + n[4]) ELSE s \notin UnitNames
TypeTextOk(ty, s) == IF ty \in DOMAIN TypeNames THEN s = TypeNames[ty] ELSE s \notin AllTypeNames
=============================================================================
