------------------------------ MODULE Registry -------------------------------
(* The mutable part of the unit system, shared by a whole program run:
     G     the units defined by the user, the labels bound to units, the default
           unit of every base dimension (see Units)
     pref  the list of preferred units, as unit arguments
     live  quantities the program keeps
   Operations (events o = "reg"): def, bind, dflt, pref, prefresc, mut, keep.
   Every event also reports what is observable afterwards: the labels whose
   meaning differs from the shipped catalogue, the default units, the quantities
   kept by the program.                                                         *)
EXTENDS Calc

Reserved == {"UnitQuantity", "CompoundUnit"}         \* names of classes in the registry
Classes == [UnitLength |-> "meter", UnitMass |-> "kilogram", UnitTime |-> "second", UnitCurrent |-> "ampere",
            UnitLuminousIntensity |-> "candela", UnitSubstance |-> "mole", UnitTemperature |-> "Kelvin",
            UnitInformation |-> "bit", UnitCurrency |-> "currency"]
Kinds == [length |-> "meter", mass |-> "kilogram", time |-> "second", current |-> "ampere", luminous_intensity |-> "candela",
          substance |-> "mole", temperature |-> "Kelvin", information |-> "bit", currency |-> "currency"]

\* --- defining a unit ---------------------------------------------------------
Labels(e) == <<e.name>> \o (IF e.sym = "" THEN <<>> ELSE <<e.sym>>) \o e.al
LabelSet(e) == {Labels(e)[i] : i \in DOMAIN Labels(e)}
\* the value of a definition: factor and base dimensions
DefVal(G, e) ==
  CASE e.def.k = "Z" -> [f |-> "1", b |-> DUnit(e.key)]
    [] e.def.k = "N" -> [f |-> RNorm(e.def.v[1]), b |-> DOne]
    [] e.def.k = "Q" -> [f |-> RMul(e.def.v[1], DFac(G, DOf(e.def))), b |-> DBas(G, DOf(e.def))]
Bound(G, l) == l \in DOMAIN CatLab \/ l \in DOMAIN G.lab
\* may label l, if already bound, be bound to a unit of this value: "yes", "no", or "close" (equal within rounding)
Agrees(G, l, v, same) ==
  IF l \in Reserved THEN "no"
  ELSE IF ~Bound(G, l) THEN "yes"
  ELSE LET k == KeyOfLabel(G, l)
       IN  IF same # "" /\ k = same THEN "yes"
           ELSE IF ~DEq(UBas(G, k), v.b) THEN "no"
           ELSE IF RClose(UFac(G, k), v.f, "1e-13") THEN "close"
           ELSE IF RClose(UFac(G, k), v.f, "1e-9") THEN "close"
           ELSE "no"
Verdicts(G, ls, v, same) == {Agrees(G, l, v, same) : l \in ls}
DefX(G, e) ==
  IF e.bad # "" THEN "must"
  ELSE LET a == Verdicts(G, LabelSet(e), DefVal(G, e), IF Has(e, "like") THEN e.like ELSE "")
       IN  IF "no" \in a THEN "must" ELSE IF "close" \in a THEN "may" ELSE "no"
\* what a definition adds
Bind(G, ls, k) == [l \in {l \in ls : ~Bound(G, l)} |-> k] @@ G.lab
Defined(G, e) ==
  LET v == DefVal(G, e)
      s == IF e.sym = "" THEN e.name ELSE e.sym
      u == UDef(v.f, v.b, s, IF e.usym = "" THEN s ELSE e.usym)
      cur == e.cls = "UnitCurrency" /\ "currency" \notin DOMAIN G.dflt
  IN  [G EXCEPT !.tab = IF e.key \in DOMAIN Cat \cup DOMAIN @ THEN @ ELSE (e.key :> u) @@ @,
                !.lab = Bind(G, LabelSet(e), e.key),
                !.dflt = IF cur THEN ("currency" :> DUnit(e.key)) @@ (e.key :> DUnit(e.key)) @@ @ ELSE @]

\* --- default units ------------------------------------------------------------
DfltOf(G, kind) == G.dflt[Kinds[kind]]
\* outcome of one assignment: "ok" with a signature, "rej", "any"
DfltArg(G, kind, a) ==
  IF Kinds[kind] \notin DOMAIN G.dflt THEN Rej
  ELSE LET t == Target(G, a)
       IN  IF a.k = "D" \/ t.st = "rej" THEN Rej
           ELSE IF t.st \in {"may", "mayd"} THEN May
           ELSE IF ~Compat(G, t.d, DfltOf(G, kind)) THEN Rej ELSE t
SystemD(G, s) ==
  LET z == SLower(s)
      d == (IF z = "si" THEN [ampere |-> DUnit("ampere"), meter |-> DUnit("meter"), kilogram |-> DUnit("kilogram")]
            ELSE [meter |-> DUnit("centimeter"), kilogram |-> DUnit("gram")])
           @@ [candela |-> DUnit("candela"), mole |-> DUnit("mole"), Kelvin |-> DUnit("Kelvin"), second |-> DUnit("second")]
  IN  IF s = "" THEN G.dflt ELSE d @@ G.dflt
DfltX(G, e) ==
  LET st == {DfltArg(G, e.kw[i][1], e.kw[i][2]).st : i \in DOMAIN e.kw}
  IN  IF "rej" \in st \/ (e.sys # "" /\ SLower(e.sys) \notin {"si", "cgs"}) THEN "must"
      ELSE IF "may" \in st THEN "any" ELSE "no"
\* system first, individual units after; a currency is also known by its own name
RECURSIVE DfltSet(_, _, _, _)
DfltSet(G, kw, i, d) ==
  IF i > Len(kw) THEN d
  ELSE LET t == DfltArg(G, kw[i][1], kw[i][2]).d
           b == Kinds[kw[i][1]]
           cur == IF b = "currency" THEN {k \in DOMAIN G.dflt : k \in DOMAIN G.tab} ELSE {}
       IN  DfltSet(G, kw, i + 1, (b :> t) @@ [k \in cur |-> t] @@ d)
DfltStep(G, e) == [G EXCEPT !.dflt = DfltSet(G, e.kw, 1, SystemD(G, e.sys))]

\* --- preferred units -------------------------------------------------------------
\* (a magnitude other than one can not be a target: unspecified)
PrefD(G, p) == LET t == Target(G, p) IN t
RECURSIVE FirstPref(_, _, _, _)
FirstPref(G, pref, d, i) ==
  IF i > Len(pref) THEN Rej
  ELSE LET t == PrefD(G, pref[i])
       IN  IF ~Compat(G, IF pref[i].k = "Q" THEN DOf(pref[i]) ELSE t.d, d) THEN FirstPref(G, pref, d, i + 1) ELSE t
PrefX(G, pref, q) ==
  LET t == FirstPref(G, pref, DOf(q), 1)
  IN  IF t.st # "ok" THEN EMust("")
      ELSE ET(Scaled(G, q, t.d, RelOf({q.dt})), IF q.t = "X" THEN {"X"} ELSE {"Q"})

\* --- what is observable after every event ------------------------------------------
\* only names can be looked up
IsName(l) == LET c == SChars(l) IN c[1] \in IdStart /\ (\A i \in DOMAIN c : c[i] \in IdChar) /\ l \notin Keywords
DefOK(G, k, r) == /\ r.def.k = "Q" /\ r.def.sh = <<>>
                  /\ DEq(DBas(G, DOf(r.def)), UBas(G, k))
                  /\ RClose(RMul(r.def.v[1], DFac(G, DOf(r.def))), UFac(G, k), "1e-9")
\* (another unit object of the same meaning may carry other symbols)
SymOK(G, k, r) == r.sym = Sym(G, k) /\ r.usym = USym(G, k)
LabOK(G, e) ==
  LET ls == {e.lab[i].l : i \in DOMAIN e.lab}
  IN  Clause("labels", /\ ls = {l \in DOMAIN G.lab : IsName(l)}
                       /\ \A i \in DOMAIN e.lab : e.lab[i].l \in DOMAIN G.lab => e.lab[i].key = G.lab[e.lab[i].l])
      \cup Clause("meaning", \A i \in DOMAIN e.lab : LET r == e.lab[i] IN r.key = "" \/ (/\ KnownUnit(G, r.key) /\ DefOK(G, r.key, r)
                                                                               /\ (r.l = r.key => SymOK(G, r.key, r))))
DfOK(G, e) == Clause("default-units", \A i \in DOMAIN e.df : LET b == Classes[e.df[i][1]] IN
                 IF b \in DOMAIN G.dflt THEN DEq(DFromSeq(e.df[i][2]), G.dflt[b]) ELSE e.df[i][2] = << <<"none", "1">> >>)
LiveOK(s, e) == Clause("live-changed", e.live = s.live)
Observe(s, e) == LabOK(s.G, e) \cup DfOK(s.G, e) \cup LiveOK(s, e)

\* --- one event -----------------------------------------------------------------------
Outcome(w, r) == CASE w = "must" -> Clause("not-refused", r.k = "E")
                   [] w = "no" -> Clause("refused", r.k # "E")
                   [] OTHER -> {}
Direct == {"iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow", "setitem", "units"}
\* binding a label by hand
BindX(G, e) == LET k == e.key
                   w == Verdicts(G, {e.label}, [f |-> UFac(G, k), b |-> UBas(G, k)], k)
               IN  IF "no" \in w THEN "must" ELSE IF "close" \in w THEN "may" ELSE "no"
RegChk1(s, e) ==
  LET G == s.G IN
  CASE e.f = "def" -> Outcome(DefX(G, e), e.r)
    [] e.f = "bind" -> Outcome(BindX(G, e), e.r)
    [] e.f = "dflt" -> Outcome(DfltX(G, e), e.r)
    [] e.f = "prefresc" -> JudgeAny(e.r, PrefX(G, s.pref, e.a[1])) \cup Untouched(e) \cup Fresh(e)
    [] e.f = "mut" -> Clause("not-refused", e.how \notin Direct \/ e.r.k = "E")
                      \cup Clause("unit-changed", /\ e.fp.u.v = <<"1">> /\ e.fp.u.sh = <<>>
                                                   /\ e.fp.u.d = (IF e.key = "dimensionless" THEN <<>> ELSE << <<e.key, "1">> >>)
                                                   /\ DefOK(G, e.key, e.fp) /\ SymOK(G, e.key, e.fp))
    [] e.f = "udup" -> Clause("copy", /\ e.r.k = "Q" /\ e.r.t = "U" /\ e.r.v = <<"1">> /\ e.r.sh = <<>>
                                      /\ e.r.d = (IF e.key = "dimensionless" THEN <<>> ELSE << <<e.key, "1">> >>)
                                      /\ DefOK(G, e.key, e.fp) /\ e.fp.sym = e.fp0.sym /\ e.fp.usym = e.fp0.usym /\ e.fp.type = e.fp0.type /\ e.fp.ord = e.fp0.ord)
    [] e.f \in {"pref", "keep"} -> {}
RegStep(s, e) ==
  LET ok == e.r.k # "E" IN
  CASE e.f = "def" -> IF ok THEN [s EXCEPT !.G = Defined(s.G, e)] ELSE s
    [] e.f = "bind" -> IF ok THEN [s EXCEPT !.G = [@ EXCEPT !.lab = Bind(s.G, {e.label}, e.key)]] ELSE s
    [] e.f = "dflt" -> IF ok THEN [s EXCEPT !.G = DfltStep(s.G, e)] ELSE s
    [] e.f = "pref" -> [s EXCEPT !.pref = e.a]
    [] e.f = "keep" -> [s EXCEPT !.live = Append(@, e.a[1])]
    [] OTHER -> s
\* outcomes the specification leaves open
RegOpen(s, e) == e.f = "dflt" /\ DfltX(s.G, e) = "any"
RegChk(s, e) == LET v == RegChk1(s, e) IN IF v # {} THEN v ELSE IF RegOpen(s, e) THEN {} ELSE Observe(RegStep(s, e), e)
=============================================================================
