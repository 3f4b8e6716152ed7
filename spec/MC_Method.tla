------------------------------- MODULE MC_Method ------------------------------
(* Every array method over a pool of small arrays.  Invariants relate the methods
   to each other and to a change of units; each state is a case for the library. *)
EXTENDS Method

CONSTANTS Tier
Mk(d, sh, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> sh, d |-> d, v |-> v]
Nu(v) == [k |-> "N", dt |-> "f8", sh |-> <<>>, v |-> <<v>>]
U1(k) == << <<k, "1">> >>
M == U1("meter")
ShQ == {<<>>, <<2>>, <<0>>, <<2, 2>>, <<1, 3>>} 
ShT == ShQ \cup {<<3>>, <<2, 3>>, <<2, 1, 2>>, <<2, 0>>, <<1, 1>>}
Fill(sh, s) == [i \in 1..Size(sh) |-> s[((i - 1) % Len(s)) + 1]]
Seeds == {<<"3", "-1", "0.5", "2">>, <<"1", "1", "4">>, <<"nan", "2", "-5">>} \cup (IF Tier = "quick" THEN {} ELSE {<<"0", "-0.25">>, <<"inf", "1", "-7", "2">>})
Pool == {Mk(d, sh, Fill(sh, s)) : d \in {M, <<>>}, sh \in IF Tier = "quick" THEN ShQ ELSE ShT, s \in Seeds}
AxSets(n) == {<<>>} \cup {<<x>> : x \in (-n)..(n - 1)} \cup (IF n > 1 THEN {<<0, 1>>} ELSE {})
Ax1(n) == {<<>>} \cup {<<x>> : x \in (-n)..n}
Call(g, x, rest, ax, more) == [o |-> "meth", f |-> g, a |-> <<x>> \o rest, ax |-> ax, via |-> "method", ddof |-> 0] @@ more
Z == [k |-> "Z"]
Lims == {Z, Mk(M, <<>>, <<"1">>), Mk(U1("centimeter"), <<>>, <<"150">>), Mk(U1("second"), <<>>, <<"1">>), Nu("1")}
Kx == 1..3
Calls(x) ==
  LET n == Len(x.sh) IN
  {Call(g, x, <<>>, ax, [pos |-> FALSE]) : g \in RedOps \ (ArgOps \cup {"prod"}), ax \in AxSets(n)}
  \cup {Call(g, x, <<>>, ax, [pos |-> TRUE]) : g \in (ArgOps \ {"nanargmin", "nanargmax"}) \cup {"prod"}, ax \in {ax \in Ax1(n) : Len(x.sh) > 0}}
  \cup {Call("var", x, <<>>, ax, [pos |-> FALSE, ddof |-> 1]) : ax \in AxSets(n)}
  \cup {Call(g, x, <<>>, ax, [pos |-> FALSE]) : g \in {"cumsum", "cumprod"}, ax \in IF n = 0 THEN {<<>>} ELSE Ax1(n)}
  \cup {Call("clip", x, <<l, h>>, <<>>, [pos |-> TRUE]) : l \in Lims, h \in Lims}
  \cup {Call("round", x, <<>>, <<>>, [dec |-> k]) : k \in {0, 1}}
  \cup {Call("trace", x, <<>>, <<>>, [off |-> k]) : k \in {0, 1, -1}}
  \cup {Call("diagonal", x, <<>>, <<>>, [off |-> k]) : k \in {0, 1, -1}}
  \cup {Call(g, x, <<>>, <<>>, [pos |-> TRUE]) : g \in {"ravel", "flatten", "T", "squeeze"} \cup (IF n = 0 THEN {} ELSE {"nonzero"})}
  \cup {Call("repeat", x, <<>>, ax, [n |-> 2]) : ax \in IF n = 0 THEN {<<>>} ELSE Ax1(n)}
  \cup {Call("take", x, <<>>, ax, [ind |-> <<1, 0>>, ish |-> <<2>>]) : ax \in IF n = 0 \/ Size(x.sh) = 0 THEN {} ELSE Ax1(n)}
  \cup {Call("take", x, <<>>, <<>>, [ind |-> <<0>>, ish |-> <<>>]) : k \in IF Size(x.sh) = 0 THEN {} ELSE {1}}
  \cup {Call("swapaxes", x, <<>>, <<i, j>>, [pos |-> TRUE]) : i \in (-n)..(n - 1), j \in (-n)..(n - 1)}
  \cup {Call("reshape", x, <<>>, <<>>, [sh2 |-> s]) : s \in ShT}
  \cup {Call(g, x, <<>>, ax, [pos |-> FALSE]) : g \in {"argsort", "npsort"}, ax \in IF n = 0 THEN {} ELSE {<<y>> : y \in (-n)..(n - 1)}}
VARIABLES x, c
Init == x \in Pool /\ c = [f |-> ""]
Next == c.f = "" /\ c' \in Calls(x) /\ x' = x /\ PrintT(ToJson(c'))
Spec == Init /\ [][Next]_<<x, c>>

Special == c.f \in {"", "argsort", "nonzero"}
Ok == ~Special /\ MethX(G0, c).err = "no"
Res == MethX(G0, c)
At(i) == Res.val[i][2]
\* the same array in units a hundred times smaller
Cm(y) == IF ~IsQ(y) \/ y.d # M THEN y ELSE [y EXCEPT !.d = U1("centimeter"), !.v = [i \in DOMAIN y.v |-> RMul(y.v[i], "100")]]
Covariant == (Ok /\ c.f # "round") =>
  LET S == MethX(G0, [c EXCEPT !.a = [i \in DOMAIN c.a |-> Cm(c.a[i])]])
      k == Conv(G0, S.d, Res.d)
  IN  S.err = "no" /\ S.sh = Res.sh /\ Compat(G0, S.d, Res.d)
      /\ \A i \in DOMAIN Res.val : Res.val[i][1] = "any" \/ RIsNan(At(i)) \/ RClose(At(i), RMul(S.val[i][2], k), "1e-12")
\* a reduction over all axes is one reduction per axis
Iter(f, y) == LET e1 == [f |-> f, ax |-> <<0>>, ddof |-> 0]
                  r == RedX(G0, y, e1)
                  z == Mk(y.d, r.sh, [i \in DOMAIN r.val |-> r.val[i][2]])
              IN  RedX(G0, z, [e1 EXCEPT !.ax = <<>>]).val[1][2]
Stepwise == (Ok /\ c.f \in {"sum", "min", "max", "nansum"} /\ c.ax = <<>> /\ Len(x.sh) = 2 /\ Size(x.sh) > 0) =>
            RClose(At(1), Iter(c.f, x), "1e-12") \/ RIsNan(At(1))
Between == (Ok /\ c.f = "mean" /\ c.ax = <<>> /\ Size(x.sh) > 0 /\ ~HasNan(x.v) /\ AllFin(x.v)) =>
           RLe(BestVal(x.v, FALSE), At(1)) /\ RLe(At(1), BestVal(x.v, TRUE))
StdVar == (Ok /\ c.f = "std" /\ c.ddof = 0) => LET V == RedX(G0, x, [c EXCEPT !.f = "var"]) IN
          /\ DEq(V.d, DPow(Res.d, "2"))
          /\ \A i \in DOMAIN V.val : V.val[i][1] # "c" \/ RClose(RMul(At(i), At(i)), V.val[i][2], "1e-12")
\* rearrangements lose and invent nothing; transposing twice is the identity
Permutes == (Ok /\ c.f \in {"reshape", "ravel", "flatten", "T", "squeeze", "swapaxes"}) =>
            /\ \A v \in {x.v[i] : i \in DOMAIN x.v} : Cardinality({i \in DOMAIN x.v : x.v[i] = v}) = Cardinality({i \in DOMAIN Res.val : At(i) = v})
            /\ DEq(Res.d, DOf(x))
Involution == (Ok /\ c.f \in {"T", "swapaxes"}) =>
              LET y == Mk(x.d, Res.sh, [i \in DOMAIN Res.val |-> At(i)])
                  z == MethX(G0, [c EXCEPT !.a = <<y>>])
              IN  z.sh = x.sh /\ \A i \in DOMAIN x.v : z.val[i][2] = x.v[i]
Limits == (Ok /\ c.f = "clip" /\ c.a[2] = Mk(M, <<>>, <<"1">>)) => \A i \in DOMAIN Res.val : RIsNan(At(i)) \/ RLe("1", At(i)) \/ ~NoLim(c.a[3])
LimitsRefused == (c.f = "clip" /\ x.d = M /\ \E i \in {2, 3} : IsQ(c.a[i]) /\ c.a[i].d = U1("second")) => Res.err = "must"
==============================================================================
