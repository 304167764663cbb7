---------------------------- MODULE UnitTables ----------------------------
(* The physics the unit system has to agree with: metric prefixes, the named   *)
(* units with their size in the coherent mks unit of their quantity, and the   *)
(* dimensions of each physical quantity in either metric system, with the      *)
(* number of coherent cgs units in one coherent mks unit.  Numbers are         *)
(* monomials over primes and the constants "c" (speed of light in cm/s), "pi", *)
(* "qe" (electron charge in C), "au" (astronomical unit in m).                 *)
(* known = FALSE: the factor between the canonical units is left open (the     *)
(* conductivity and resistivity units of the two systems differ by a bridge    *)
(* that the package does not define; the magnetic moment has two conventions). *)
EXTENDS Monomials, Sequences
PrefixList == <<
  [symbol |-> "Y", name |-> "yotta", ten |-> 24],
  [symbol |-> "Z", name |-> "zetta", ten |-> 21],
  [symbol |-> "E", name |-> "exa", ten |-> 18],
  [symbol |-> "P", name |-> "peta", ten |-> 15],
  [symbol |-> "T", name |-> "tera", ten |-> 12],
  [symbol |-> "G", name |-> "giga", ten |-> 9],
  [symbol |-> "M", name |-> "mega", ten |-> 6],
  [symbol |-> "k", name |-> "kilo", ten |-> 3],
  [symbol |-> "h", name |-> "hecto", ten |-> 2],
  [symbol |-> "da", name |-> "deca", ten |-> 1],
  [symbol |-> "", name |-> "", ten |-> 0],
  [symbol |-> "d", name |-> "deci", ten |-> -1],
  [symbol |-> "c", name |-> "centi", ten |-> -2],
  [symbol |-> "m", name |-> "milli", ten |-> -3],
  [symbol |-> "u", name |-> "micro", ten |-> -6],
  [symbol |-> "n", name |-> "nano", ten |-> -9],
  [symbol |-> "p", name |-> "pico", ten |-> -12],
  [symbol |-> "f", name |-> "femto", ten |-> -15],
  [symbol |-> "a", name |-> "atto", ten |-> -18],
  [symbol |-> "z", name |-> "zepto", ten |-> -21],
  [symbol |-> "y", name |-> "yocto", ten |-> -24]>>
UnitList == <<
  [symbol |-> "m", name |-> "meter", quantity |-> "length", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "au", name |-> "astronomical unit", quantity |-> "length", systems |-> {"mks", "cgs"}, size |-> "au" :> <<1, 1>>],
  [symbol |-> "g", name |-> "gram", quantity |-> "mass", systems |-> {"mks", "cgs"}, size |-> "2" :> <<-3, 1>> @@ "5" :> <<-3, 1>>],
  [symbol |-> "nuc", name |-> "nucleon", quantity |-> "mass number", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "amu", name |-> "atomic mass unit", quantity |-> "mass number", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "s", name |-> "second", quantity |-> "time", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "min", name |-> "minute", quantity |-> "time", systems |-> {"mks", "cgs"}, size |-> "2" :> <<2, 1>> @@ "3" :> <<1, 1>> @@ "5" :> <<1, 1>>],
  [symbol |-> "h", name |-> "hour", quantity |-> "time", systems |-> {"mks", "cgs"}, size |-> "2" :> <<4, 1>> @@ "3" :> <<2, 1>> @@ "5" :> <<2, 1>>],
  [symbol |-> "d", name |-> "day", quantity |-> "time", systems |-> {"mks", "cgs"}, size |-> "2" :> <<7, 1>> @@ "3" :> <<3, 1>> @@ "5" :> <<2, 1>>],
  [symbol |-> "A", name |-> "ampere", quantity |-> "current", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "K", name |-> "kelvin", quantity |-> "temperature", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "mol", name |-> "mole", quantity |-> "amount", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "#", name |-> "count", quantity |-> "number", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "cd", name |-> "candela", quantity |-> "luminous intensity", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "rad", name |-> "radian", quantity |-> "plane angle", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "deg", name |-> "degree", quantity |-> "plane angle", systems |-> {"mks", "cgs"}, size |-> "2" :> <<-2, 1>> @@ "3" :> <<-2, 1>> @@ "5" :> <<-1, 1>> @@ "pi" :> <<1, 1>>],
  [symbol |-> "sr", name |-> "steradian", quantity |-> "solid angle", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "Hz", name |-> "hertz", quantity |-> "frequency", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "J", name |-> "joule", quantity |-> "energy", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "erg", name |-> "erg", quantity |-> "energy", systems |-> {"cgs"}, size |-> "2" :> <<-7, 1>> @@ "5" :> <<-7, 1>>],
  [symbol |-> "eV", name |-> "electronvolt", quantity |-> "energy", systems |-> {"mks", "cgs"}, size |-> "qe" :> <<1, 1>>],
  [symbol |-> "N", name |-> "newton", quantity |-> "force", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "dyn", name |-> "dyne", quantity |-> "force", systems |-> {"cgs"}, size |-> "2" :> <<-5, 1>> @@ "5" :> <<-5, 1>>],
  [symbol |-> "Pa", name |-> "pascal", quantity |-> "pressure", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "W", name |-> "watt", quantity |-> "power", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "C", name |-> "coulomb", quantity |-> "charge", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "statC", name |-> "statcoulomb", quantity |-> "charge", systems |-> {"cgs"}, size |-> "2" :> <<1, 1>> @@ "5" :> <<1, 1>> @@ "c" :> <<-1, 1>>],
  [symbol |-> "statA", name |-> "statampere", quantity |-> "current", systems |-> {"cgs"}, size |-> "2" :> <<1, 1>> @@ "5" :> <<1, 1>> @@ "c" :> <<-1, 1>>],
  [symbol |-> "statV", name |-> "statvolt", quantity |-> "potential", systems |-> {"cgs"}, size |-> "2" :> <<-8, 1>> @@ "5" :> <<-8, 1>> @@ "c" :> <<1, 1>>],
  [symbol |-> "e", name |-> "fundamental charge", quantity |-> "charge", systems |-> {"mks", "cgs"}, size |-> "qe" :> <<1, 1>>],
  [symbol |-> "V", name |-> "volt", quantity |-> "potential", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "ohm", name |-> "ohm", quantity |-> "resistance", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "S", name |-> "seimens", quantity |-> "conductance", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "F", name |-> "farad", quantity |-> "capacitance", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "Wb", name |-> "weber", quantity |-> "magnetic flux", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "Mx", name |-> "maxwell", quantity |-> "magnetic flux", systems |-> {"cgs"}, size |-> "2" :> <<-8, 1>> @@ "5" :> <<-8, 1>>],
  [symbol |-> "Oe", name |-> "Oersted", quantity |-> "magnetic intensity", systems |-> {"cgs"}, size |-> "2" :> <<1, 1>> @@ "5" :> <<3, 1>> @@ "pi" :> <<-1, 1>>],
  [symbol |-> "H", name |-> "henry", quantity |-> "inductance", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "T", name |-> "tesla", quantity |-> "induction", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "G", name |-> "gauss", quantity |-> "induction", systems |-> {"cgs"}, size |-> "2" :> <<-4, 1>> @@ "5" :> <<-4, 1>>],
  [symbol |-> "lm", name |-> "lumen", quantity |-> "luminous flux", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "lx", name |-> "lux", quantity |-> "illuminance", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "Bq", name |-> "becquerel", quantity |-> "radioactivity", systems |-> {"mks", "cgs"}, size |-> MOne],
  [symbol |-> "Ci", name |-> "Curie", quantity |-> "radioactivity", systems |-> {"mks", "cgs"}, size |-> "2" :> <<9, 1>> @@ "37" :> <<1, 1>> @@ "5" :> <<9, 1>>],
  [symbol |-> "Gy", name |-> "gray", quantity |-> "dosage", systems |-> {"mks"}, size |-> MOne],
  [symbol |-> "P", name |-> "poise", quantity |-> "viscosity", systems |-> {"cgs"}, size |-> "2" :> <<-1, 1>> @@ "5" :> <<-1, 1>>],
  [symbol |-> "1", name |-> "unitless", quantity |-> "identity", systems |-> {"mks", "cgs"}, size |-> MOne]>>
QuantityList == <<
  [name |-> "identity", mks |-> MOne, cgs |-> MOne, factor |-> MOne, known |-> TRUE],
  [name |-> "number", mks |-> MOne, cgs |-> MOne, factor |-> MOne, known |-> TRUE],
  [name |-> "ratio", mks |-> MOne, cgs |-> MOne, factor |-> MOne, known |-> TRUE],
  [name |-> "mass number", mks |-> MOne, cgs |-> MOne, factor |-> MOne, known |-> TRUE],
  [name |-> "plane angle", mks |-> MOne, cgs |-> MOne, factor |-> MOne, known |-> TRUE],
  [name |-> "solid angle", mks |-> MOne, cgs |-> MOne, factor |-> MOne, known |-> TRUE],
  [name |-> "amount", mks |-> "N" :> <<1, 1>>, cgs |-> "N" :> <<1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "temperature", mks |-> "H" :> <<1, 1>>, cgs |-> "H" :> <<1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "luminous intensity", mks |-> "J" :> <<1, 1>>, cgs |-> "J" :> <<1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "luminous flux", mks |-> "J" :> <<1, 1>>, cgs |-> "J" :> <<1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "illuminance", mks |-> "J" :> <<1, 1>> @@ "L" :> <<-2, 1>>, cgs |-> "J" :> <<1, 1>> @@ "L" :> <<-2, 1>>, factor |-> "2" :> <<-4, 1>> @@ "5" :> <<-4, 1>>, known |-> TRUE],
  [name |-> "length", mks |-> "L" :> <<1, 1>>, cgs |-> "L" :> <<1, 1>>, factor |-> "2" :> <<2, 1>> @@ "5" :> <<2, 1>>, known |-> TRUE],
  [name |-> "mass", mks |-> "M" :> <<1, 1>>, cgs |-> "M" :> <<1, 1>>, factor |-> "2" :> <<3, 1>> @@ "5" :> <<3, 1>>, known |-> TRUE],
  [name |-> "time", mks |-> "T" :> <<1, 1>>, cgs |-> "T" :> <<1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "area", mks |-> "L" :> <<2, 1>>, cgs |-> "L" :> <<2, 1>>, factor |-> "2" :> <<4, 1>> @@ "5" :> <<4, 1>>, known |-> TRUE],
  [name |-> "volume", mks |-> "L" :> <<3, 1>>, cgs |-> "L" :> <<3, 1>>, factor |-> "2" :> <<6, 1>> @@ "5" :> <<6, 1>>, known |-> TRUE],
  [name |-> "wavenumber", mks |-> "L" :> <<-1, 1>>, cgs |-> "L" :> <<-1, 1>>, factor |-> "2" :> <<-2, 1>> @@ "5" :> <<-2, 1>>, known |-> TRUE],
  [name |-> "number density", mks |-> "L" :> <<-3, 1>>, cgs |-> "L" :> <<-3, 1>>, factor |-> "2" :> <<-6, 1>> @@ "5" :> <<-6, 1>>, known |-> TRUE],
  [name |-> "velocity", mks |-> "L" :> <<1, 1>> @@ "T" :> <<-1, 1>>, cgs |-> "L" :> <<1, 1>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<2, 1>> @@ "5" :> <<2, 1>>, known |-> TRUE],
  [name |-> "speed", mks |-> "L" :> <<1, 1>> @@ "T" :> <<-1, 1>>, cgs |-> "L" :> <<1, 1>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<2, 1>> @@ "5" :> <<2, 1>>, known |-> TRUE],
  [name |-> "acceleration", mks |-> "L" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<1, 1>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<2, 1>> @@ "5" :> <<2, 1>>, known |-> TRUE],
  [name |-> "frequency", mks |-> "T" :> <<-1, 1>>, cgs |-> "T" :> <<-1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "vorticity", mks |-> "T" :> <<-1, 1>>, cgs |-> "T" :> <<-1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "radioactivity", mks |-> "T" :> <<-1, 1>>, cgs |-> "T" :> <<-1, 1>>, factor |-> MOne, known |-> TRUE],
  [name |-> "force", mks |-> "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<5, 1>> @@ "5" :> <<5, 1>>, known |-> TRUE],
  [name |-> "energy", mks |-> "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<7, 1>> @@ "5" :> <<7, 1>>, known |-> TRUE],
  [name |-> "work", mks |-> "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<7, 1>> @@ "5" :> <<7, 1>>, known |-> TRUE],
  [name |-> "power", mks |-> "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, factor |-> "2" :> <<7, 1>> @@ "5" :> <<7, 1>>, known |-> TRUE],
  [name |-> "pressure", mks |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<1, 1>> @@ "5" :> <<1, 1>>, known |-> TRUE],
  [name |-> "energy density", mks |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<1, 1>> @@ "5" :> <<1, 1>>, known |-> TRUE],
  [name |-> "power density", mks |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, factor |-> "2" :> <<1, 1>> @@ "5" :> <<1, 1>>, known |-> TRUE],
  [name |-> "momentum", mks |-> "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-1, 1>>, cgs |-> "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<5, 1>> @@ "5" :> <<5, 1>>, known |-> TRUE],
  [name |-> "momentum density", mks |-> "L" :> <<-2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-1, 1>>, cgs |-> "L" :> <<-2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-1, 1>> @@ "5" :> <<-1, 1>>, known |-> TRUE],
  [name |-> "mass density", mks |-> "L" :> <<-3, 1>> @@ "M" :> <<1, 1>>, cgs |-> "L" :> <<-3, 1>> @@ "M" :> <<1, 1>>, factor |-> "2" :> <<-3, 1>> @@ "5" :> <<-3, 1>>, known |-> TRUE],
  [name |-> "viscosity", mks |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-1, 1>>, cgs |-> "L" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<1, 1>> @@ "5" :> <<1, 1>>, known |-> TRUE],
  [name |-> "dosage", mks |-> "L" :> <<2, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<2, 1>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<4, 1>> @@ "5" :> <<4, 1>>, known |-> TRUE],
  [name |-> "thermal conductivity", mks |-> "H" :> <<-1, 1>> @@ "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "H" :> <<-1, 1>> @@ "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, factor |-> "2" :> <<5, 1>> @@ "5" :> <<5, 1>>, known |-> TRUE],
  [name |-> "particle distribution", mks |-> "L" :> <<-6, 1>> @@ "T" :> <<3, 1>>, cgs |-> "L" :> <<-6, 1>> @@ "T" :> <<3, 1>>, factor |-> "2" :> <<-12, 1>> @@ "5" :> <<-12, 1>>, known |-> TRUE],
  [name |-> "particle fluence", mks |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<2, 1>>, cgs |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<2, 1>>, factor |-> "2" :> <<-11, 1>> @@ "5" :> <<-11, 1>>, known |-> TRUE],
  [name |-> "fluence", mks |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<2, 1>>, cgs |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<2, 1>>, factor |-> "2" :> <<-11, 1>> @@ "5" :> <<-11, 1>>, known |-> TRUE],
  [name |-> "particle flux", mks |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<1, 1>>, cgs |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<1, 1>>, factor |-> "2" :> <<-11, 1>> @@ "5" :> <<-11, 1>>, known |-> TRUE],
  [name |-> "flux", mks |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<1, 1>>, cgs |-> "L" :> <<-4, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<1, 1>>, factor |-> "2" :> <<-11, 1>> @@ "5" :> <<-11, 1>>, known |-> TRUE],
  [name |-> "integral flux", mks |-> "L" :> <<-2, 1>> @@ "T" :> <<-1, 1>>, cgs |-> "L" :> <<-2, 1>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-4, 1>> @@ "5" :> <<-4, 1>>, known |-> TRUE],
  [name |-> "current", mks |-> "I" :> <<1, 1>>, cgs |-> "L" :> <<3, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<-1, 1>> @@ "5" :> <<-1, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "magnetomotance", mks |-> "I" :> <<1, 1>>, cgs |-> "L" :> <<3, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<-1, 1>> @@ "5" :> <<-1, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "charge", mks |-> "I" :> <<1, 1>> @@ "T" :> <<1, 1>>, cgs |-> "L" :> <<3, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-1, 1>> @@ "5" :> <<-1, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "electric charge", mks |-> "I" :> <<1, 1>> @@ "T" :> <<1, 1>>, cgs |-> "L" :> <<3, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-1, 1>> @@ "5" :> <<-1, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "charge density", mks |-> "I" :> <<1, 1>> @@ "L" :> <<-3, 1>> @@ "T" :> <<1, 1>>, cgs |-> "L" :> <<-3, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-7, 1>> @@ "5" :> <<-7, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "current density", mks |-> "I" :> <<1, 1>> @@ "L" :> <<-2, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-2, 1>>, factor |-> "2" :> <<-5, 1>> @@ "5" :> <<-5, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "polarization", mks |-> "I" :> <<1, 1>> @@ "L" :> <<-2, 1>> @@ "T" :> <<1, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-5, 1>> @@ "5" :> <<-5, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "displacement", mks |-> "I" :> <<1, 1>> @@ "L" :> <<-2, 1>> @@ "T" :> <<1, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-5, 1>> @@ "5" :> <<-5, 1>> @@ "c" :> <<1, 1>>, known |-> TRUE],
  [name |-> "potential", mks |-> "I" :> <<-1, 1>> @@ "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "L" :> <<1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<8, 1>> @@ "5" :> <<8, 1>> @@ "c" :> <<-1, 1>>, known |-> TRUE],
  [name |-> "electromotance", mks |-> "I" :> <<-1, 1>> @@ "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "L" :> <<1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<8, 1>> @@ "5" :> <<8, 1>> @@ "c" :> <<-1, 1>>, known |-> TRUE],
  [name |-> "electric field", mks |-> "I" :> <<-1, 1>> @@ "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<6, 1>> @@ "5" :> <<6, 1>> @@ "c" :> <<-1, 1>>, known |-> TRUE],
  [name |-> "capacitance", mks |-> "I" :> <<2, 1>> @@ "L" :> <<-2, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<4, 1>>, cgs |-> "L" :> <<1, 1>>, factor |-> "2" :> <<-9, 1>> @@ "5" :> <<-9, 1>> @@ "c" :> <<2, 1>>, known |-> TRUE],
  [name |-> "conductance", mks |-> "I" :> <<2, 1>> @@ "L" :> <<-2, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<3, 1>>, cgs |-> "L" :> <<1, 1>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-9, 1>> @@ "5" :> <<-9, 1>> @@ "c" :> <<2, 1>>, known |-> TRUE],
  [name |-> "conductivity", mks |-> "I" :> <<2, 1>> @@ "L" :> <<-3, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<3, 1>>, cgs |-> "T" :> <<-1, 1>>, factor |-> "2" :> <<-11, 1>> @@ "5" :> <<-11, 1>> @@ "c" :> <<2, 1>>, known |-> FALSE],
  [name |-> "impedance", mks |-> "I" :> <<-2, 1>> @@ "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "L" :> <<-1, 1>> @@ "T" :> <<1, 1>>, factor |-> "2" :> <<9, 1>> @@ "5" :> <<9, 1>> @@ "c" :> <<-2, 1>>, known |-> TRUE],
  [name |-> "resistance", mks |-> "I" :> <<-2, 1>> @@ "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "L" :> <<-1, 1>> @@ "T" :> <<1, 1>>, factor |-> "2" :> <<9, 1>> @@ "5" :> <<9, 1>> @@ "c" :> <<-2, 1>>, known |-> TRUE],
  [name |-> "resistivity", mks |-> "I" :> <<-2, 1>> @@ "L" :> <<3, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-3, 1>>, cgs |-> "T" :> <<1, 1>>, factor |-> "2" :> <<11, 1>> @@ "5" :> <<11, 1>> @@ "c" :> <<-2, 1>>, known |-> FALSE],
  [name |-> "inductance", mks |-> "I" :> <<-2, 1>> @@ "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<-1, 1>> @@ "T" :> <<2, 1>>, factor |-> "2" :> <<9, 1>> @@ "5" :> <<9, 1>> @@ "c" :> <<-2, 1>>, known |-> TRUE],
  [name |-> "induction", mks |-> "I" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<4, 1>> @@ "5" :> <<4, 1>>, known |-> TRUE],
  [name |-> "magnetic induction", mks |-> "I" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<4, 1>> @@ "5" :> <<4, 1>>, known |-> TRUE],
  [name |-> "magnetic field", mks |-> "I" :> <<-1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<4, 1>> @@ "5" :> <<4, 1>>, known |-> TRUE],
  [name |-> "magnetic flux", mks |-> "I" :> <<-1, 1>> @@ "L" :> <<2, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<3, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<8, 1>> @@ "5" :> <<8, 1>>, known |-> TRUE],
  [name |-> "magnetic intensity", mks |-> "I" :> <<1, 1>> @@ "L" :> <<-1, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-1, 1>> @@ "5" :> <<-3, 1>> @@ "pi" :> <<1, 1>>, known |-> TRUE],
  [name |-> "magnetization", mks |-> "I" :> <<1, 1>> @@ "L" :> <<-1, 1>>, cgs |-> "L" :> <<-1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<-1, 1>> @@ "5" :> <<-3, 1>> @@ "pi" :> <<1, 1>>, known |-> TRUE],
  [name |-> "magnetic moment", mks |-> "I" :> <<1, 1>> @@ "L" :> <<2, 1>>, cgs |-> "L" :> <<5, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> MOne, known |-> FALSE],
  [name |-> "permeability", mks |-> "I" :> <<-2, 1>> @@ "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> MOne, factor |-> "2" :> <<5, 1>> @@ "5" :> <<7, 1>> @@ "pi" :> <<-1, 1>>, known |-> TRUE],
  [name |-> "permittivity", mks |-> "I" :> <<2, 1>> @@ "L" :> <<-3, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<4, 1>>, cgs |-> MOne, factor |-> "2" :> <<-9, 1>> @@ "5" :> <<-11, 1>> @@ "c" :> <<2, 1>> @@ "pi" :> <<1, 1>>, known |-> TRUE],
  [name |-> "reluctance", mks |-> "I" :> <<2, 1>> @@ "L" :> <<-2, 1>> @@ "M" :> <<-1, 1>> @@ "T" :> <<2, 1>>, cgs |-> "L" :> <<-1, 1>>, factor |-> "2" :> <<-7, 1>> @@ "5" :> <<-9, 1>> @@ "pi" :> <<1, 1>>, known |-> TRUE],
  [name |-> "vector potential", mks |-> "I" :> <<-1, 1>> @@ "L" :> <<1, 1>> @@ "M" :> <<1, 1>> @@ "T" :> <<-2, 1>>, cgs |-> "L" :> <<1, 2>> @@ "M" :> <<1, 2>> @@ "T" :> <<-1, 1>>, factor |-> "2" :> <<6, 1>> @@ "5" :> <<6, 1>>, known |-> TRUE]>>
=============================================================================
