-------------------------------- MODULE MC_Reg -------------------------------
(* Histories of the shared state of the unit system: definitions of units (with
   colliding names, symbols and aliases), labels bound by hand, attempts to change
   units, default units, preferred units.  The specification alone computes the
   state; every finished path, followed by probes, is replayed on the library.   *)
EXTENDS Registry, Randomization, SequencesExt

CONSTANTS Tier, Depth, Focus
U1(k) == << <<k, "1">> >>
Q0(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> d, v |-> <<v>>]
Qn(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<Len(v)>>, d |-> d, v |-> v]
Un(k) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> U1(k), v |-> <<"1">>]
Tx(s) == [k |-> "S", s |-> s]
Nil == [k |-> "Z"]
Ps(a, b) == <<a, b>>

VARIABLES s, path, done
vars == <<s, path, done>>
S0 == [G |-> G0, pref |-> <<>>, live |-> <<>>]

Ev(f, p) == p @@ [o |-> "reg", f |-> f]
Def(cls, name, sym, al, d, mut) == Ev("def", [cls |-> cls, name |-> name, sym |-> sym, usym |-> "", al |-> al, bad |-> "", def |-> d, key |-> name, mut |-> mut])
UserKeys == DOMAIN s.G.tab
Defs ==
  LET names == {"vpa", "vpb"}
      full == Tier # "quick" \/ Depth > 2
  IN  {Def("UnitLength", n, sy, al, Q0(U1("foot"), "2"), "set") : n \in names, sy \in {"", "m", "va"}, al \in {<<>>, <<"vpb">>}}
      \cup {Def("UnitTime", n, "va", al, Q0(U1("second"), "7"), "units") : n \in names, al \in {<<>>, <<"vpc", "m">>}}
      \cup {Def("UnitQuantity", n, "", <<"vpc">>, x, "") : n \in names, x \in {Nil, Q0(<< <<"meter", "1">>, <<"second", "-2">> >>, "0.5")}}
      \cup {Def("UnitLength", "meter", "vc", <<>>, Q0(U1("parsec"), "12"), "")}
      \cup (IF ~full THEN {} ELSE
            {Def("UnitQuantity", "vpc", "vpa", <<"va">>, Q0(U1(k), "3"), "imul") : k \in UserKeys \cup {"joule"}}
            \cup {Def("UnitMass", "vpd", "", <<"vpc", "kg">>, Un("pound"), ""), Def("UnitCurrency", "vpe", "", <<>>, Nil, "")}
            \cup {Def("UnitCurrency", "vpd", "", <<>>, Q0(U1("vpe"), "0.01"), "mag") : k \in {k \in UserKeys : k = "vpe"}})
Binds == {Ev("bind", [label |-> l, key |-> k]) : l \in {"vpc", "m"}, k \in UserKeys \cup {"foot"}}
Muts == {Ev("mut", [key |-> k, how |-> h, a |-> <<Un("meter")>>]) : k \in UserKeys, h \in {"imul", "defmul", "defunits", "out"}}
Dups == {Ev("udup", [key |-> k, how |-> h]) : k \in UserKeys, h \in {"copy", "2"}}
\* --- defaults
Dflt(sys, kw, m) == Ev("dflt", [sys |-> sys, kw |-> kw, mut |-> m])
Dflts ==
  {Dflt(sy, <<>>, "") : sy \in {"SI", "cgs", "mks"}}
  \cup {Dflt("", <<Ps("length", x)>>, "") : x \in {Tx("km"), Tx("nosuch"), Tx("s"), Un("foot"), Q0(U1("inch"), "1"), Q0(U1("inch"), "2")}}
  \cup {Dflt("cgs", <<Ps("mass", Tx("lb")), Ps("time", Un("hour"))>>, "")}
  \cup {Dflt("", <<Ps("length", Q0(U1("mile"), "1")), Ps("mass", x)>>, "imul") : x \in {Tx("g"), Tx("hour"), Un("pound")}}
  \cup {Dflt("mks", <<Ps("length", Tx("km"))>>, "")}
  \cup {Dflt("", <<Ps("length", Un(k))>>, "") : k \in UserKeys}
\* --- preferences
Pref(l) == Ev("pref", [a |-> l, inplace |-> FALSE])
Kmh == << <<"kilometer", "1">>, <<"hour", "-1">> >>
Prefs == {Pref(<<>>), Pref(<<Un("foot"), Un("kilometer")>>), Pref(<<Un("hour"), Un("inch"), Q0(Kmh, "1")>>),
          Pref(<<Q0(<< <<"meter", "1">>, <<"second", "-1">> >>, "1"), Un("joule"), Un("gram")>>), Pref(<<Un("gram"), Un("electron_volt"), Un("meter")>>)}
         \cup {Pref(<<Un(k), Un("mile")>>) : k \in UserKeys}
Asks == {Ev("prefresc", [a |-> <<q>>, via |-> FALSE]) :
           q \in {Q0(U1("meter"), "3"), Qn(<< <<"foot", "1">>, <<"minute", "-1">> >>, <<"1", "-2">>), Un("mile"),
                  Q0(<< <<"newton", "1">>, <<"centimeter", "1">> >>, "2"), Q0(U1("radian"), "1")}}
Keep == {Ev("keep", [a |-> <<Qn(U1("inch"), <<"1", "24">>)>>])}

\* --- probes (they change nothing)
Parse(t) == [o |-> "parse", s |-> t, where |-> "quantity"]
Simp1(q) == [o |-> "simplified", a |-> <<q>>]
Resc(q, t) == [o |-> "rescale", a |-> <<q, t>>]
Work == Q0(<< <<"kilogram", "1">>, <<"foot", "2">>, <<"hour", "-2">> >>, "3")
Probes ==
  CASE Focus = "reg" -> <<Parse("vpa"), Parse("m/vpb"), Parse("vpc**2"), Parse("va*vc"), Resc(Q0(U1("foot"), "1"), Tx("m"))>>
                        \o [i \in 1..Cardinality(UserKeys) |-> Simp1(Q0(U1(SetToSeq(UserKeys)[i]), "3"))]
    [] Focus = "dflt" -> <<Simp1(Work), Simp1(Un("joule")), Resc(Work, Tx("J")), [o |-> "live", live |-> 0], [o |-> "dim", f |-> "simplified", a |-> <<[k |-> "D", d |-> Work.d]>>]>>
    [] Focus = "pref" -> [i \in 1..2 |-> SetToSeq(Asks)[i]]

Events == CASE Focus = "reg" -> Defs \cup Binds \cup Muts \cup Dups
            [] Focus = "dflt" -> Dflts \cup Keep \cup {d \in Defs : d.cls = "UnitLength" /\ d.name = "vpa" /\ d.sym = "" /\ d.al = <<>>}
            [] Focus = "pref" -> Prefs \cup Asks \cup {Dflt("cgs", <<>>, ""), Dflt("", <<Ps("length", Tx("ft")), Ps("mass", Tx("lb"))>>, "")}
                                 \cup {d \in Defs : d.cls = "UnitLength" /\ d.name = "vpa" /\ d.sym = "" /\ d.al = <<>>}
Fails(e) == CASE e.f = "def" -> DefX(s.G, e) = "must"
              [] e.f = "bind" -> BindX(s.G, e) = "must"
              [] e.f = "dflt" -> DfltX(s.G, e) = "must"
              [] e.f = "mut" -> e.how \in Direct
              [] e.f = "prefresc" -> PrefX(s.G, s.pref, e.a[1]).err = "must"
              [] OTHER -> FALSE
Open(e) == CASE e.f = "def" -> DefX(s.G, e) = "may" [] e.f = "bind" -> BindX(s.G, e) = "may" [] e.f = "dflt" -> DfltX(s.G, e) = "any" [] OTHER -> FALSE
Run(e) == RegStep(s, e @@ [r |-> [k |-> IF Fails(e) THEN "E" ELSE "Z"]])

Init == s = S0 /\ path = <<>> /\ done = FALSE
Some(S) == IF Depth < 5 THEN S ELSE RandomSubset(IF Cardinality(S) < 3 THEN Cardinality(S) ELSE 3, S)
Take(e) == s' = Run(e) /\ path' = Append(path, e) /\ done' = (Len(path') = Depth)
Case(p) == [o |-> "reghist", ops |-> [i \in DOMAIN p |-> IF p[i].o = "reg" THEN [q \in DOMAIN p[i] \ (IF p[i].f = "def" THEN {"key"} ELSE {}) |-> p[i][q]] ELSE p[i]]]
Tell == done /\ path # <<>> /\ PrintT(ToJson(Case(path \o Probes))) /\ path' = <<>> /\ s' = S0 /\ done' = TRUE
Next == \/ ~done /\ \E e \in Some({e \in Events : ~Open(e)}) : Take(e)
        \/ Tell
Spec == Init /\ [][Next]_vars

\* --- what holds in every reachable state and step ------------------------------------------
G == s.G
LastEv == path'[Len(path')]
\* a label, once bound, keeps its meaning; shipped labels are never rebound; units keep their values
Stable == [][path' = <<>> \/ /\ \A l \in DOMAIN s.G.lab : l \in DOMAIN s'.G.lab /\ s'.G.lab[l] = s.G.lab[l]
                             /\ \A k \in DOMAIN s.G.tab : k \in DOMAIN s'.G.tab /\ s'.G.tab[k] = s.G.tab[k]
                             /\ DOMAIN s'.G.lab \cap DOMAIN CatLab = {}]_vars
\* all labels of an accepted definition denote its value, none of a refused one is added
AllOrNothing == [][path' = <<>> \/ LastEv.f # "def" \/
                   IF Fails(LastEv) THEN s' = s
                   ELSE \A l \in LabelSet(LastEv) : LET k == KeyOfLabel(s'.G, l)
                                                      v == DefVal(s.G, LastEv)
                                                  IN  k # "" /\ DEq(UBas(s'.G, k), v.b) /\ RClose(UFac(s'.G, k), v.f, "1e-9")]_vars
\* a refused operation changes nothing
RefusedKeeps == [][path' = <<>> \/ ~Fails(LastEv) \/ s' = s]_vars
\* only set_default_units changes defaults (or the first currency), only defining and binding changes labels
OnlyBy == [][path' = <<>> \/ /\ (LastEv.f \notin {"dflt", "def"} => s'.G.dflt = s.G.dflt)
                             /\ (LastEv.f \notin {"def", "bind"} => s'.G.lab = s.G.lab /\ s'.G.tab = s.G.tab)
                             /\ (LastEv.f # "pref" => s'.pref = s.pref)]_vars
Positive == \A k \in DOMAIN G.tab : RSign(G.tab[k].f) = 1 /\ DOMAIN G.tab[k].b \subseteq Bases \cup DOMAIN G.tab
LabelsKnown == \A l \in DOMAIN G.lab : KnownUnit(G, G.lab[l])
\* every default is a unit of its kind
Kind == \A b \in DOMAIN G.dflt \ {"currency"} : b \in Bases \cup DOMAIN G.tab /\ DEq(DBas(G, G.dflt[b]), DUnit(b))
\* simplification keeps the value, uses default units only, and is idempotent
SimpOK == \A d \in {DFromSeq(Work.d)} \cup {DUnit(k) : k \in DOMAIN G.tab} :
            LET t == Simp(G, d)
            IN  /\ Compat(G, d, t)
                /\ RClose(RMul(Conv(G, d, t), DFac(G, t)), DFac(G, d), "1e-12")
                /\ DEq(Simp(G, t), t)
                /\ DOMAIN t \subseteq UNION {DOMAIN G.dflt[b] : b \in DOMAIN G.dflt} \cup DOMAIN G.tab
\* the preferred unit chosen is compatible and nothing before it is
PrefOK == \A q \in {e.a[1] : e \in Asks} :
            LET x == PrefX(G, s.pref, q)
            IN  IF x.err = "must" THEN \A i \in DOMAIN s.pref : ~Compat(G, DOf(s.pref[i]), DOf(q))
                ELSE /\ Compat(G, x.d, DOf(q))
                     /\ \E i \in DOMAIN s.pref : DEq(DOf(s.pref[i]), x.d) /\ \A j \in 1..(i - 1) : ~Compat(G, DOf(s.pref[j]), DOf(q))
==============================================================================
