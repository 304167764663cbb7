------------------------------ MODULE Species ------------------------------
(* Chemical elements (masses in millionths of a nucleon), the identification  *)
(* of a species from mass and charge, and reference values of the physical    *)
(* constants: m * 10^e in coherent mks units of the quantity q.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
ElementList == <<
  [symbol |-> "H", name |-> "Hydrogen", mass |-> 1007970],
  [symbol |-> "He", name |-> "Helium", mass |-> 4002600],
  [symbol |-> "Li", name |-> "Lithium", mass |-> 6941000],
  [symbol |-> "Be", name |-> "Beryllium", mass |-> 9012180],
  [symbol |-> "B", name |-> "Boron", mass |-> 10810000],
  [symbol |-> "C", name |-> "Carbon", mass |-> 12011000],
  [symbol |-> "N", name |-> "Nitrogen", mass |-> 14006700],
  [symbol |-> "O", name |-> "Oxygen", mass |-> 15999400],
  [symbol |-> "F", name |-> "Fluorine", mass |-> 18998403],
  [symbol |-> "Ne", name |-> "Neon", mass |-> 20179000],
  [symbol |-> "Na", name |-> "Sodium", mass |-> 22989770],
  [symbol |-> "Mg", name |-> "Magnesium", mass |-> 24305000],
  [symbol |-> "Al", name |-> "Aluminum", mass |-> 26981540],
  [symbol |-> "Si", name |-> "Silicon", mass |-> 28085500],
  [symbol |-> "P", name |-> "Phosphorus", mass |-> 30973760],
  [symbol |-> "S", name |-> "Sulfur", mass |-> 32060000],
  [symbol |-> "Cl", name |-> "Chlorine", mass |-> 35453000],
  [symbol |-> "K", name |-> "Potassium", mass |-> 39098300],
  [symbol |-> "Ar", name |-> "Argon", mass |-> 39948000],
  [symbol |-> "Ca", name |-> "Calcium", mass |-> 40080000],
  [symbol |-> "Sc", name |-> "Scandium", mass |-> 44955900],
  [symbol |-> "Ti", name |-> "Titanium", mass |-> 47900000],
  [symbol |-> "V", name |-> "Vanadium", mass |-> 50941500],
  [symbol |-> "Cr", name |-> "Chromium", mass |-> 51996000],
  [symbol |-> "Mn", name |-> "Manganese", mass |-> 54938000],
  [symbol |-> "Fe", name |-> "Iron", mass |-> 55847000],
  [symbol |-> "Ni", name |-> "Nickel", mass |-> 58700000],
  [symbol |-> "Co", name |-> "Cobalt", mass |-> 58933200],
  [symbol |-> "Cu", name |-> "Copper", mass |-> 63546000],
  [symbol |-> "Zn", name |-> "Zinc", mass |-> 65380000],
  [symbol |-> "Ga", name |-> "Gallium", mass |-> 69720000],
  [symbol |-> "Ge", name |-> "Germanium", mass |-> 72590000],
  [symbol |-> "As", name |-> "Arsenic", mass |-> 74921600],
  [symbol |-> "Se", name |-> "Selenium", mass |-> 78960000],
  [symbol |-> "Br", name |-> "Bromine", mass |-> 79904000],
  [symbol |-> "Kr", name |-> "Krypton", mass |-> 83800000],
  [symbol |-> "Rb", name |-> "Rubidium", mass |-> 85467800],
  [symbol |-> "Sr", name |-> "Strontium", mass |-> 87620000],
  [symbol |-> "Y", name |-> "Yttrium", mass |-> 88905900],
  [symbol |-> "Zr", name |-> "Zirconium", mass |-> 91220000],
  [symbol |-> "Nb", name |-> "Niobium", mass |-> 92906400],
  [symbol |-> "Mo", name |-> "Molybdenum", mass |-> 95940000],
  [symbol |-> "Tc", name |-> "Technetium", mass |-> 98000000],
  [symbol |-> "Ru", name |-> "Ruthenium", mass |-> 101070000],
  [symbol |-> "Rh", name |-> "Rhodium", mass |-> 102905500],
  [symbol |-> "Pd", name |-> "Palladium", mass |-> 106400000],
  [symbol |-> "Ag", name |-> "Silver", mass |-> 107868000],
  [symbol |-> "Cd", name |-> "Cadmium", mass |-> 112410000],
  [symbol |-> "In", name |-> "Indium", mass |-> 114820000],
  [symbol |-> "Sn", name |-> "Tin", mass |-> 118690000],
  [symbol |-> "Sb", name |-> "Antimony", mass |-> 121750000],
  [symbol |-> "I", name |-> "Iodine", mass |-> 126904500],
  [symbol |-> "Te", name |-> "Tellurium", mass |-> 127600000],
  [symbol |-> "Xe", name |-> "Xenon", mass |-> 131300000],
  [symbol |-> "Cs", name |-> "Cesium", mass |-> 132905400],
  [symbol |-> "Ba", name |-> "Barium", mass |-> 137330000],
  [symbol |-> "La", name |-> "Lanthanum", mass |-> 138905500],
  [symbol |-> "Ce", name |-> "Cerium", mass |-> 140120000],
  [symbol |-> "Pr", name |-> "Praseodymium", mass |-> 140907700],
  [symbol |-> "Nd", name |-> "Neodymium", mass |-> 144240000],
  [symbol |-> "Pm", name |-> "Promethium", mass |-> 145000000],
  [symbol |-> "Sm", name |-> "Samarium", mass |-> 150400000],
  [symbol |-> "Eu", name |-> "Europium", mass |-> 151960000],
  [symbol |-> "Gd", name |-> "Gadolinium", mass |-> 157250000],
  [symbol |-> "Tb", name |-> "Terbium", mass |-> 158925400],
  [symbol |-> "Dy", name |-> "Dysprosium", mass |-> 162500000],
  [symbol |-> "Ho", name |-> "Holmium", mass |-> 164930400],
  [symbol |-> "Er", name |-> "Erbium", mass |-> 167260000],
  [symbol |-> "Tm", name |-> "Thulium", mass |-> 168934200],
  [symbol |-> "Yb", name |-> "Ytterbium", mass |-> 173040000],
  [symbol |-> "Lu", name |-> "Lutetium", mass |-> 174967000],
  [symbol |-> "Hf", name |-> "Hafnium", mass |-> 178490000],
  [symbol |-> "Ta", name |-> "Tantalum", mass |-> 180947900],
  [symbol |-> "W", name |-> "Tungsten", mass |-> 183850000],
  [symbol |-> "Re", name |-> "Rhenium", mass |-> 186207000],
  [symbol |-> "Os", name |-> "Osmium", mass |-> 190200000],
  [symbol |-> "Ir", name |-> "Iridium", mass |-> 192220000],
  [symbol |-> "Pt", name |-> "Platinum", mass |-> 195090000],
  [symbol |-> "Au", name |-> "Gold", mass |-> 196966500],
  [symbol |-> "Hg", name |-> "Mercury", mass |-> 200590000],
  [symbol |-> "Tl", name |-> "Thallium", mass |-> 204370000],
  [symbol |-> "Pb", name |-> "Lead", mass |-> 207200000],
  [symbol |-> "Bi", name |-> "Bismuth", mass |-> 208980400],
  [symbol |-> "Po", name |-> "Polonium", mass |-> 209000000],
  [symbol |-> "At", name |-> "Astatine", mass |-> 210000000],
  [symbol |-> "Rn", name |-> "Radon", mass |-> 222000000],
  [symbol |-> "Fr", name |-> "Francium", mass |-> 223000000],
  [symbol |-> "Ra", name |-> "Radium", mass |-> 226025400],
  [symbol |-> "Ac", name |-> "Actinium", mass |-> 227027800],
  [symbol |-> "Pa", name |-> "Protactinium", mass |-> 231035900],
  [symbol |-> "Th", name |-> "Thorium", mass |-> 232038100],
  [symbol |-> "Np", name |-> "Neptunium", mass |-> 237048200],
  [symbol |-> "U", name |-> "Uranium", mass |-> 238029000],
  [symbol |-> "Pu", name |-> "Plutonium", mass |-> 242000000],
  [symbol |-> "Am", name |-> "Americium", mass |-> 243000000],
  [symbol |-> "Bk", name |-> "Berkelium", mass |-> 247000000],
  [symbol |-> "Cm", name |-> "Curium", mass |-> 247000000],
  [symbol |-> "No", name |-> "Nobelium", mass |-> 250000000],
  [symbol |-> "Cf", name |-> "Californium", mass |-> 251000000],
  [symbol |-> "Es", name |-> "Einsteinium", mass |-> 252000000],
  [symbol |-> "Hs", name |-> "Hassium", mass |-> 255000000],
  [symbol |-> "Mt", name |-> "Meitnerium", mass |-> 256000000],
  [symbol |-> "Fm", name |-> "Fermium", mass |-> 257000000],
  [symbol |-> "Md", name |-> "Mendelevium", mass |-> 258000000],
  [symbol |-> "Lr", name |-> "Lawrencium", mass |-> 260000000],
  [symbol |-> "Rf", name |-> "Rutherfordium", mass |-> 261000000],
  [symbol |-> "Bh", name |-> "Bohrium", mass |-> 262000000],
  [symbol |-> "Db", name |-> "Dubnium", mass |-> 262000000],
  [symbol |-> "Sg", name |-> "Seaborgium", mass |-> 263000000]>>
N == Len(ElementList)
ConstantList == <<
  [name |-> "pi", q |-> <<<<"number", 1, 1>>>>, m |-> 314159265, e |-> -8],
  [name |-> "k", q |-> <<<<"energy", 1, 1>>, <<"temperature", -1, 1>>>>, m |-> 13807, e |-> -27],
  [name |-> "e", q |-> <<<<"charge", 1, 1>>>>, m |-> 16022, e |-> -23],
  [name |-> "me", q |-> <<<<"mass", 1, 1>>>>, m |-> 91094, e |-> -35],
  [name |-> "mp", q |-> <<<<"mass", 1, 1>>>>, m |-> 16726, e |-> -31],
  [name |-> "G", q |-> <<<<"force", 1, 1>>, <<"area", 1, 1>>, <<"mass", -2, 1>>>>, m |-> 66726, e |-> -15],
  [name |-> "g", q |-> <<<<"acceleration", 1, 1>>>>, m |-> 98067, e |-> -4],
  [name |-> "h", q |-> <<<<"energy", 1, 1>>, <<"time", 1, 1>>>>, m |-> 66261, e |-> -38],
  [name |-> "c", q |-> <<<<"speed", 1, 1>>>>, m |-> 29979, e |-> 4],
  [name |-> "epsilon0", q |-> <<<<"permittivity", 1, 1>>>>, m |-> 88542, e |-> -16],
  [name |-> "mu0", q |-> <<<<"permeability", 1, 1>>>>, m |-> 125663706, e |-> -14],
  [name |-> "Rinfinity", q |-> <<<<"length", -1, 1>>>>, m |-> 10974, e |-> 3],
  [name |-> "a0", q |-> <<<<"length", 1, 1>>>>, m |-> 52918, e |-> -15],
  [name |-> "re", q |-> <<<<"length", 1, 1>>>>, m |-> 28179, e |-> -19],
  [name |-> "alpha", q |-> <<<<"number", 1, 1>>>>, m |-> 72974, e |-> -7],
  [name |-> "c1", q |-> <<<<"power", 1, 1>>, <<"area", 1, 1>>>>, m |-> 37418, e |-> -20],
  [name |-> "c2", q |-> <<<<"length", 1, 1>>, <<"temperature", 1, 1>>>>, m |-> 14388, e |-> -6],
  [name |-> "sigma", q |-> <<<<"power", 1, 1>>, <<"area", -1, 1>>, <<"temperature", -4, 1>>>>, m |-> 56705, e |-> -12],
  [name |-> "eV", q |-> <<<<"energy", 1, 1>>>>, m |-> 16022, e |-> -23],
  [name |-> "amu", q |-> <<<<"mass", 1, 1>>>>, m |-> 16605, e |-> -31],
  [name |-> "au", q |-> <<<<"length", 1, 1>>>>, m |-> 1495978707, e |-> 2],
  [name |-> "H+", q |-> <<<<"energy", 1, 1>>>>, m |-> 21790, e |-> -22]>>
Million == 1000000
Mag(x) == IF x < 0 THEN -x ELSE x
(* to the nearest number, halves to the even one *)
Nucleons(m) == LET n == m \div Million r == m % Million IN
  IF 2 * r < Million \/ (2 * r = Million /\ n % 2 = 0) THEN n ELSE n + 1
(* elements that a mass may denote; a mass halfway between two numbers is open *)
Candidates(m) == {i \in 1..N : Nucleons(ElementList[i].mass) = Nucleons(m)}
Elements(m) == {i \in Candidates(m) : \A j \in Candidates(m) : Mag(ElementList[i].mass - m) <= Mag(ElementList[j].mass - m)}
RECURSIVE Signs(_)
Signs(q) == IF q = 0 THEN "" ELSE IF q > 0 THEN "+" \o Signs(q - 1) ELSE "-" \o Signs(q + 1)
Symbols(m, q) == {ElementList[i].symbol \o Signs(q) : i \in Elements(m)}
(* laws: symbols are distinct, and mass and charge lead back to the symbol *)
Distinct == \A i, j \in 1..N : i # j => ElementList[i].symbol # ElementList[j].symbol /\ ElementList[i].name # ElementList[j].name
RoundTrip(i) == /\ i \in Elements(ElementList[i].mass)
                /\ \A j \in Elements(ElementList[i].mass) : ElementList[j].mass = ElementList[i].mass
=============================================================================
