------------------------------- MODULE MC_Ufunc -------------------------------
(* Every universal function over a pool of arguments.  Invariants: the unit rules
   do not depend on the units an argument happens to be expressed in, and are
   refused exactly where they are physically meaningless.  Each state is a case. *)
EXTENDS Ufunc

CONSTANTS Tier
Qa(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<Len(v)>>, d |-> d, v |-> v]
Qs(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> d, v |-> <<v>>]
Un(k) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> << <<k, "1">> >>, v |-> <<"1">>]
Ar(v) == [k |-> "A", dt |-> "f8", sh |-> <<Len(v)>>, v |-> v]
Nu(v) == [k |-> "N", dt |-> IF RIsInt(v) THEN "i8" ELSE "f8", sh |-> <<>>, v |-> <<v>>]
U1(k) == << <<k, "1">> >>
Pool == {Qa(U1("meter"), <<"4", "-2.25">>), Qa(U1("centimeter"), <<"400", "-225">>), Qs(U1("meter"), "0.5"), Qs(U1("second"), "2"),
         Qa(<<>>, <<"0.5", "-0.25">>), Qs(<<>>, "2"), Qs(U1("radian"), "0.5"), Qs(U1("arcdegree"), "30"), Qs(U1("percent"), "50"),
         Un("meter"), Un("radian"), Qa(U1("meter"), <<"nan", "1">>), [Qa(U1("meter"), <<"5", "7">>) EXCEPT !.dt = "i8"],
         Qa(<< <<"meter", "1">>, <<"second", "-2">> >>, <<"1", "9">>), Qs(U1("count"), "1"), Qa(U1("meter"), <<>>)}
        \cup (IF Tier = "quick" THEN {} ELSE
        {Qs(U1("foot"), "3"), Qs(U1("arcminute"), "90"), Qa(U1("radian"), <<"0", "1.5">>), Un("arcdegree"), Un("percent"), Qs(U1("kilogram"), "-1"),
         Qa(U1("second"), <<"1", "3">>), Qs(<< <<"meter", "0.5">> >>, "4"), Un("const:natural_unit_of_velocity")})
Plains == {Nu("2"), Nu("0"), Nu("0.5"), Ar(<<"0", "0">>), Ar(<<"1", "2">>)}
UfBad1 == {"sign", "trunc", "cbrt", "positive", "deg2rad", "logical_not"}
UfBad2 == {"fmax", "fmin", "copysign", "heaviside", "float_power", "logical_and"}

VARIABLES f, a
Init == f \in Uf1 \cup Uf2 \cup UfBad1 \cup UfBad2 /\ a = <<>>
Args(g) == IF g \in Uf1 \cup UfBad1 THEN {<<x>> : x \in Pool}
           ELSE {<<x, y>> : x \in Pool, y \in Pool \cup Plains} \cup {<<y, x>> : x \in Pool, y \in Plains}
Next == /\ a = <<>> /\ a' \in Args(f) /\ f' = f
        /\ PrintT(ToJson([o |-> "uf", f |-> f, a |-> a']))
Spec == Init /\ [][Next]_<<f, a>>

Res == UfX(G0, f, a)
Exact == Res.err = "no" /\ \A i \in DOMAIN Res.val : Res.val[i][1] \in {"c", "e"}
\* the same argument expressed in units ten times as large
Deca(d) == [i \in DOMAIN d |-> IF d[i][1] = "meter" THEN <<"decameter", d[i][2]>> ELSE d[i]]
ReExp(x) == IF ~IsQ(x) THEN x
            ELSE LET c == Conv(G0, DOf(x), DFromSeq(Deca(x.d)))
                 IN  [x EXCEPT !.t = "Q", !.dt = "f8", !.d = Deca(x.d), !.v = [i \in DOMAIN x.v |-> RMul(x.v[i], c)]]
Covariant ==
  a # <<>> /\ Exact /\ f \notin {"rint", "floor", "ceil"} /\ (\A i \in DOMAIN a : a[i].dt = "f8" \/ ~IsQ(a[i]))
  => LET S == UfX(G0, f, [i \in DOMAIN a |-> ReExp(a[i])])
         k == Conv(G0, S.d, Res.d)
     IN  /\ S.err = "no" /\ Compat(G0, S.d, Res.d) /\ S.sh = Res.sh
         /\ \A i \in DOMAIN Res.val : RClose(Res.val[i][2], RMul(S.val[i][2], k), "1e-12") \/ RIsNan(Res.val[i][2]) \/ S.val[i][1] = "any"
NoRule == a # <<>> /\ f \in UfBad1 \cup UfBad2 => Res.err = "must"
SameUnits == a # <<>> /\ f \in UfUnif /\ Res.err = "no" => \A i \in DOMAIN a : IsQ(a[i]) => DEq(DOf(a[i]), Res.d)
NoLength == a # <<>> /\ f \in UfTrig \cup UfArc \cup UfLog /\ Res.err # "must" => Compat(G0, DOf(a[1]), DOne)
==============================================================================
