-------------------------------- MODULE MC_Sig --------------------------------
(* Programs over signature objects and what is made from them.  The state is
   computed by the specification alone; the properties say that an operation
   changes nothing but its target, and that equality, order and hashing fit
   together.  Every complete path is replayed on the library.                  *)
EXTENDS Sig, Randomization

CONSTANTS Tier, Depth
VARIABLES sg, path, done
vars == <<sg, path, done>>
Ev(f, t, s, p) == p @@ [o |-> "sig", f |-> f, t |-> t, s |-> s, p |-> "0", ds |-> <<>>, u |-> "", how |-> "", id |-> Len(path) + 1]
NoP == [how |-> ""]
Starts == {<<>>, << <<"meter", "1">>, <<"second", "-1">> >>, << <<"meter", "2">>, <<"inch", "-1">> >>, << <<"newton", "0.5">> >>}
Of(k) == {i \in DOMAIN sg : sg[i].k = k}
Copies == {"copy", "deepcopy"}
DEvents ==
  UNION {{Ev("copy", t, 0, [how |-> h]) : h \in Copies} \cup {Ev(f, t, 0, NoP) : f \in {"simplified", "clear"}}
         \cup {Ev("mkq", t, 0, [how |-> h]) : h \in {"", "unc"}}
         \cup {Ev(f, t, 0, [p |-> p]) : f \in {"pow", "ipow"}, p \in {"0", "1", "-1", "0.5"}}
         \cup {Ev("sete", t, 0, [u |-> "meter", p |-> p]) : p \in {"-2"}}
         \cup {Ev("pop", t, 0, [u |-> u]) : u \in {"meter", "second"}}
         \cup {Ev(f, t, s, NoP) : f \in {"mul", "add", "imul", "idiv", "iadd", "update"}, s \in Of("D")} : t \in Of("D")}
QEvents ==
  UNION {{Ev("dimq", t, 0, [how |-> h]) : h \in {"", "u"}} \cup {Ev("qpow", t, 0, [p |-> "2"])}
         \cup {Ev(f, t, s, NoP) : f \in {"resc", "setu"}, s \in Of("D")}
         \cup {Ev(f, t, s, NoP) : f \in {"qmul", "qdiv", "qimul", "qidiv", "rel"}, s \in Of("Q") \cup Of("U")} : t \in Of("Q")}
UEvents == {Ev("unit", 0, 0, [u |-> u]) : u \in {"meter"}} \cup {Ev("dimq", t, 0, NoP) : t \in Of("U")}
Events == IF path = <<>> THEN {Ev("new", 0, 0, [ds |-> d]) : d \in Starts} \cup {Ev("unit", 0, 0, [u |-> "meter"])} ELSE DEvents \cup QEvents \cup UEvents
Bound == \A i \in DOMAIN sg : \A k \in DOMAIN sg[i].d : RLe(RAbs(sg[i].d[k]), "4")
Some(S) == IF Depth < 5 THEN S ELSE RandomSubset(IF Cardinality(S) < 4 THEN Cardinality(S) ELSE 4, S)
Init == sg = DOne /\ path = <<>> /\ done = FALSE
\* one more question at the end: how the first and the last object compare
Ask == LET ids == {i \in DOMAIN sg : TRUE} IN
       IF ids = {} THEN <<>> ELSE LET a == CHOOSE i \in ids : \A j \in ids : i <= j
                                      b == CHOOSE i \in ids : \A j \in ids : i >= j IN <<Ev("rel", a, b, NoP), Ev("txt", b, 0, NoP)>>
Case(p) == [o |-> "sig", ops |-> [i \in DOMAIN p |-> [q \in DOMAIN p[i] \ {"o", "id"} |-> p[i][q]]]]
Take(e) == sg' = SgStep(G0, sg, e) /\ path' = Append(path, e) /\ done' = (Len(path') = Depth)
Tell == done /\ path # <<>> /\ PrintT(ToJson(Case(path \o Ask))) /\ path' = <<>> /\ sg' = DOne /\ done' = TRUE
Next == \/ ~done /\ Bound /\ \E e \in Some(Events) : Take(e)
        \/ Tell
Spec == Init /\ [][Next]_vars

\* --- what holds in every reachable state and step ------------------------------------
Closed == \A i \in DOMAIN sg : \A k \in DOMAIN sg[i].d : ~RZero(sg[i].d[k])
LastEv == path'[Len(path')]
Both == DOMAIN sg \cap DOMAIN sg'
Isolated == [][path' = <<>> \/ \A i \in Both : (i # LastEv.t \/ LastEv.f \in SgMaking \cup SgAsking) => sg'[i] = sg[i]]_vars
UnitsFixed == \A i \in Of("U") : sg[i].d = DUnit("meter")
\* the in-place operator gives what the operator gives
LikeOp == [][(path' # <<>> /\ LastEv.f \in {"imul", "idiv", "ipow", "iadd", "isub"} /\ LastEv.t \in Both) =>
             LET op == CASE LastEv.f = "imul" -> "mul" [] LastEv.f = "idiv" -> "div" [] LastEv.f = "ipow" -> "pow" [] LastEv.f = "iadd" -> "add" [] OTHER -> "sub"
                 x == SgX(G0, sg, [LastEv EXCEPT !.f = op])
             IN  IF x.err THEN sg' = sg ELSE DEq(sg'[LastEv.t].d, x.d)]_vars
\* dividing by itself and raising to 0 leave nothing, simplification is idempotent and keeps the kind
Laws == \A i \in DOMAIN sg : LET d == sg[i].d IN
          /\ DNull(DDiv(d, d)) /\ DNull(DPow(d, "0"))
          /\ DEq(Simp(G0, Simp(G0, d)), Simp(G0, d)) /\ Compat(G0, d, Simp(G0, d))
          /\ \A j \in DOMAIN sg : /\ DEq(d, sg[j].d) => REq(SgN(G0, d), SgN(G0, sg[j].d))
                                  /\ RLe(SgN(G0, DMul(d, sg[j].d)), RAdd(SgN(G0, d), SgN(G0, sg[j].d)))
==============================================================================
