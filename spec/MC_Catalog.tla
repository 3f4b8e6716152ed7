------------------------------ MODULE MC_Catalog ------------------------------
(* Laws of the reference catalogue itself, checked unit by unit: agreement with
   independently written standards and with the CODATA listing, exact decimal and
   binary families, labels that denote one unit only, equations among constants. *)
EXTENDS Catalog

Standards == JsonDeserialize(IOEnv.VSPEC \o "/data/standards.json")
Codata == JsonDeserialize(IOEnv.VSPEC \o "/data/codata.json")

Prefix == [yotta |-> <<"1e24", "Y">>, zetta |-> <<"1e21", "Z">>, exa |-> <<"1e18", "E">>, peta |-> <<"1e15", "P">>, tera |-> <<"1e12", "T">>,
           giga |-> <<"1e9", "G">>, mega |-> <<"1e6", "M">>, kilo |-> <<"1000", "k">>, hecto |-> <<"100", "h">>, deca |-> <<"10", "da">>,
           deka |-> <<"10", "da">>, deci |-> <<"0.1", "d">>, centi |-> <<"0.01", "c">>, milli |-> <<"0.001", "m">>, micro |-> <<"1e-6", "u">>,
           nano |-> <<"1e-9", "n">>, pico |-> <<"1e-12", "p">>, femto |-> <<"1e-15", "f">>, atto |-> <<"1e-18", "a">>, zepto |-> <<"1e-21", "z">>,
           yocto |-> <<"1e-24", "y">>, kibi |-> <<"1024", "Ki">>, mebi |-> <<"1048576", "Mi">>, gibi |-> <<"1073741824", "Gi">>,
           tebi |-> <<"1099511627776", "Ti">>, pebi |-> <<"1125899906842624", "Pi">>, exbi |-> <<"1152921504606846976", "Ei">>,
           zebi |-> <<"1180591620717411303424", "Zi">>, yobi |-> <<"1208925819614629174706176", "Yi">>]
BaseName(k, p) == SCat(SubSeq(SChars(k), SLen(p) + 1, SLen(k)))
\* <<prefix, base unit>> or nothing
Split(k) == {<<p, b>> \in {<<p, BaseName(k, p)>> : p \in {q \in DOMAIN Prefix : SStarts(k, q) /\ SLen(k) > SLen(q)}} : b \in DOMAIN CatU \/ (b = "kelvin")}
BaseKey(b) == IF b = "kelvin" THEN "Kelvin" ELSE b

\* equations: factor * product of powers = 1
TwoPi2 == "6.2831853071795864769252867665590058"
Cn(n) == "const:" \o n
Equations == {
  <<"Planck over reduced Planck", "1/1", << <<Cn("Planck_constant"), "1">>, <<Cn("Planck_constant_over_2_pi"), "-1">> >>, RDiv("1", TwoPi2)>>,
  <<"fine structure", "", << <<Cn("elementary_charge"), "2">>, <<Cn("electric_constant"), "-1">>, <<Cn("Planck_constant"), "-1">>, <<"speed_of_light", "-1">>, <<Cn("fine_structure_constant"), "-1">> >>, "0.5">>,
  <<"inverse fine structure", "", << <<Cn("fine_structure_constant"), "1">>, <<Cn("inverse_fine_structure_constant"), "1">> >>, "1">>,
  <<"Rydberg", "", << <<Cn("fine_structure_constant"), "2">>, <<Cn("electron_mass"), "1">>, <<"speed_of_light", "1">>, <<Cn("Planck_constant"), "-1">>, <<Cn("Rydberg_constant"), "-1">> >>, "0.5">>,
  <<"Bohr radius", "", << <<Cn("fine_structure_constant"), "1">>, <<Cn("Rydberg_constant"), "-1">>, <<Cn("Bohr_radius"), "-1">> >>, RDiv("0.5", TwoPi2)>>,
  <<"Hartree", "", << <<Cn("Rydberg_constant"), "1">>, <<Cn("Planck_constant"), "1">>, <<"speed_of_light", "1">>, <<Cn("Hartree_energy"), "-1">> >>, "2">>,
  <<"Faraday", "", << <<Cn("Avogadro_constant"), "1">>, <<Cn("elementary_charge"), "1">>, <<Cn("Faraday_constant"), "-1">> >>, "1">>,
  <<"gas constant", "", << <<Cn("Avogadro_constant"), "1">>, <<Cn("Boltzmann_constant"), "1">>, <<Cn("molar_gas_constant"), "-1">> >>, "1">>,
  <<"Bohr magneton", "", << <<Cn("elementary_charge"), "1">>, <<Cn("Planck_constant_over_2_pi"), "1">>, <<Cn("electron_mass"), "-1">>, <<Cn("Bohr_magneton"), "-1">> >>, "0.5">>,
  <<"nuclear magneton", "", << <<Cn("elementary_charge"), "1">>, <<Cn("Planck_constant_over_2_pi"), "1">>, <<Cn("proton_mass"), "-1">>, <<Cn("nuclear_magneton"), "-1">> >>, "0.5">>,
  <<"flux quantum", "", << <<Cn("Planck_constant"), "1">>, <<Cn("elementary_charge"), "-1">>, <<Cn("magnetic_flux_quantum"), "-1">> >>, "0.5">>,
  <<"Josephson", "", << <<Cn("elementary_charge"), "1">>, <<Cn("Planck_constant"), "-1">>, <<Cn("Josephson_constant"), "-1">> >>, "2">>,
  <<"von Klitzing", "", << <<Cn("Planck_constant"), "1">>, <<Cn("elementary_charge"), "-2">>, <<Cn("von_Klitzing_constant"), "-1">> >>, "1">>,
  <<"conductance quantum", "", << <<Cn("elementary_charge"), "2">>, <<Cn("Planck_constant"), "-1">>, <<Cn("conductance_quantum"), "-1">> >>, "2">>,
  <<"Compton", "", << <<Cn("Planck_constant"), "1">>, <<Cn("electron_mass"), "-1">>, <<"speed_of_light", "-1">>, <<Cn("Compton_wavelength"), "-1">> >>, "1">>,
  <<"classical radius", "", << <<Cn("fine_structure_constant"), "2">>, <<Cn("Bohr_radius"), "1">>, <<Cn("classical_electron_radius"), "-1">> >>, "1">>,
  <<"Thomson", "", << <<Cn("classical_electron_radius"), "2">>, <<Cn("Thomson_cross_section"), "-1">> >>, RMul(TwoPi2, "4/3")>>,
  <<"Stefan Boltzmann", "", << <<Cn("Boltzmann_constant"), "4">>, <<Cn("Planck_constant"), "-3">>, <<"speed_of_light", "-2">>, <<Cn("Stefan_Boltzmann_constant"), "-1">> >>, RMul(RPow(TwoPi2, "5"), "1/240")>>,
  <<"vacuum", "", << <<Cn("electric_constant"), "1">>, <<Cn("magnetic_constant"), "1">>, <<"speed_of_light", "2">> >>, "1">>,
  <<"impedance", "", << <<Cn("magnetic_constant"), "1">>, <<"speed_of_light", "1">>, <<Cn("characteristic_impedance_of_vacuum"), "-1">> >>, "1">>,
  <<"electron proton", "", << <<Cn("proton_mass"), "1">>, <<Cn("electron_mass"), "-1">>, <<Cn("proton_electron_mass_ratio"), "-1">> >>, "1">>,
  <<"electron energy", "", << <<Cn("electron_mass"), "1">>, <<"speed_of_light", "2">>, <<Cn("electron_mass_energy_equivalent"), "-1">> >>, "1">>,
  <<"proton energy", "", << <<Cn("proton_mass"), "1">>, <<"speed_of_light", "2">>, <<Cn("proton_mass_energy_equivalent"), "-1">> >>, "1">>,
  <<"neutron energy", "", << <<Cn("neutron_mass"), "1">>, <<"speed_of_light", "2">>, <<Cn("neutron_mass_energy_equivalent"), "-1">> >>, "1">>,
  <<"newton", "", << <<"newton", "1">>, <<"kilogram", "-1">>, <<"meter", "-1">>, <<"second", "2">> >>, "1">>,
  <<"joule", "", << <<"joule", "1">>, <<"newton", "-1">>, <<"meter", "-1">> >>, "1">>,
  <<"watt", "", << <<"watt", "1">>, <<"joule", "-1">>, <<"second", "1">> >>, "1">>,
  <<"pascal", "", << <<"pascal", "1">>, <<"newton", "-1">>, <<"meter", "2">> >>, "1">>,
  <<"volt", "", << <<"volt", "1">>, <<"watt", "-1">>, <<"ampere", "1">> >>, "1">>,
  <<"ohm", "", << <<"ohm", "1">>, <<"volt", "-1">>, <<"ampere", "1">> >>, "1">>,
  <<"siemens", "", << <<"siemens", "1">>, <<"ohm", "1">> >>, "1">>,
  <<"farad", "", << <<"farad", "1">>, <<"coulomb", "-1">>, <<"volt", "1">> >>, "1">>,
  <<"henry", "", << <<"henry", "1">>, <<"weber", "-1">>, <<"ampere", "1">> >>, "1">>,
  <<"weber", "", << <<"weber", "1">>, <<"volt", "-1">>, <<"second", "-1">> >>, "1">>,
  <<"tesla", "", << <<"tesla", "1">>, <<"weber", "-1">>, <<"meter", "2">> >>, "1">>,
  <<"coulomb", "", << <<"coulomb", "1">>, <<"ampere", "-1">>, <<"second", "-1">> >>, "1">>,
  <<"gray", "", << <<"gray", "1">>, <<"joule", "-1">>, <<"kilogram", "1">> >>, "1">> }
RECURSIVE SeqD(_), SeqF(_)
SeqD(s) == IF s = <<>> THEN DOne ELSE DMul(DPow(CatBas[s[1][1]], s[1][2]), SeqD(Tail(s)))
SeqF(s) == IF s = <<>> THEN "1" ELSE RMul(RPow(CatFac[s[1][1]], s[1][2]), SeqF(Tail(s)))
Holds(eq) == DNull(SeqD(eq[3])) /\ RClose(RMul(SeqF(eq[3]), eq[4]), "1", "1e-6")

VARIABLE c
Init == c = <<"", "">>
Next == /\ c[1] = ""
        /\ \/ \E k \in DOMAIN Cat : c' = <<"unit", k>>
           \/ \E l \in DOMAIN CatLab : c' = <<"label", l>>
           \/ \E q \in Equations : c' = <<"eq", q>>
Spec == Init /\ [][Next]_c

Standard == c[1] = "unit" /\ c[2] \in DOMAIN Standards => RClose(CatFac[c[2]], Standards[c[2]][1], Standards[c[2]][2])
Listed == c[1] = "unit" /\ c[2] \in DOMAIN Codata =>
          LET x == Codata[c[2]]
              u == IF x[4] = "" THEN Val("ok", "1", DOne, FALSE) ELSE Evaluate(CatLabD, x[4])
          IN  /\ RClose(Cat[c[2]].def[1], x[2], "1e-15")
              /\ u.st = "ok"
              /\ DEq(DBas(G0, u.d), CatBas[c[2]])
              /\ RClose(CatFac[c[2]], RMul(x[2], RMul(u.s, DFac(G0, u.d))), "1e-6")
Family == c[1] = "unit" => \A s \in Split(c[2]) :
            /\ CatFac[c[2]] = RMul(RNorm(Prefix[s[1]][1]), CatFac[BaseKey(s[2])])
            /\ DEq(CatBas[c[2]], CatBas[BaseKey(s[2])])
\* the symbol and the name of a unit are labels of that unit
OwnLabels == c[1] = "label" => \E i \in DOMAIN Cat[CatLab[c[2]]].labels : Cat[CatLab[c[2]]].labels[i] = c[2]
Equation == c[1] = "eq" => Holds(c[2])
PositiveFactor == c[1] = "unit" => RLt("0", CatFac[c[2]]) \/ c[2] \in {"const:Sackur_Tetrode_constant_STP", "const:Sackur_Tetrode_constant_ST_100kPa"} \/ c[2] \in DOMAIN CatC
==============================================================================
