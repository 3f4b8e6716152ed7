------------------------------ MODULE MC_Uncert ------------------------------
(* Propagation of uncertainties over a pool of small operands: algebraic laws of
   the rules, independence of the units used; each state is a case.             *)
EXTENDS Uncert

CONSTANTS Tier
U1(k) == << <<k, "1">> >>
Xq(d, sh, v, u) == [k |-> "Q", t |-> "X", dt |-> "f8", sh |-> sh, d |-> d, v |-> v, u |-> u, ush |-> sh, ud |-> d]
Qq(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> d, v |-> <<v>>]
Qn(k) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> U1(k), v |-> <<"1">>]
Nu(v) == [k |-> "N", dt |-> IF RIsInt(v) THEN "i8" ELSE "f8", sh |-> <<>>, v |-> <<v>>]
Dm(d) == [k |-> "D", d |-> d]
Vs == IF Tier = "quick" THEN {"3", "-0.5", "0"} ELSE {"3", "-0.5", "0", "1", "-20", "1000"}
Us == IF Tier = "quick" THEN {"0", "0.25"} ELSE {"0", "0.25", "2", "10"}
Ds == {U1("meter"), U1("centimeter"), <<>>}
XS == {Xq(d, <<>>, <<v>>, <<u>>) : d \in Ds, v \in Vs, u \in Us}
      \cup {Xq(U1("meter"), <<2>>, <<v, w>>, <<u, "0.5">>) : v \in Vs, w \in Vs, u \in Us}
      \cup {Xq(U1("meter"), <<2, 2>>, <<v, "1", "2", w>>, <<u, "0.5", "0", "1">>) : v \in Vs \cup {"nan"}, w \in Vs, u \in Us}
Others == XS \cup {Qq(U1("centimeter"), "50"), Qq(U1("second"), "2"), Qn("meter"), Qn("second"), Nu("2"), Nu("-0.5"), Nu("0")}
B(f, x, y) == [o |-> "unc", f |-> f, a |-> <<x, y>>, ax |-> <<>>, ddof |-> 0, via |-> "op"]
M(f, x, ax) == [o |-> "unc", f |-> f, a |-> <<x>>, ax |-> ax, ddof |-> 0, via |-> "op"]
Small == {x \in XS : x.sh = <<>>}
VARIABLES x, c
vars == <<x, c>>
Init == x \in XS /\ c = [f |-> ""]
Calls == {B(f, x, y) : f \in {"add", "sub", "mul", "div"}, y \in IF Tier = "quick" /\ Len(x.sh) > 1 THEN Others \ XS ELSE Others}
         \cup {B(f, y, x) : f \in {"add", "sub", "mul", "div"}, y \in Others \ XS}
         \cup {B("pow", x, Nu(p)) : p \in {p \in {"2", "-1", "0", "1", "3", "0.5"} : p # "0.5" \/ \A i \in DOMAIN x.v : RLe("0", x.v[i])}}
         \cup {M(f, x, <<>>) : f \in {"neg", "abs", "square", "reciprocal", "simplified", "copy", "deepcopy", "ccopy", "pickle", "astype", "relative", "ravel", "T", "flatten"}}
         \cup {M(f, x, ax) : f \in UncRed, ax \in {<<>>} \cup {<<i>> : i \in 0..(Len(x.sh) - 1)}}
         \cup {B("rescale", x, Dm(d)) : d \in {U1("centimeter"), U1("foot"), U1("second"), U1("percent"), U1("meter")}}
Next == c.f = "" /\ c' \in Calls /\ x' = x /\ PrintT(ToJson(c'))
Spec == Init /\ [][Next]_vars

Run(e) == UncX(G0, e @@ [r |-> [k |-> "E"]])
Good(e) == Run(e).x.err = "no"
Vals(e) == Run(e).x.val
Sig(e) == Run(e).sig
Near(a, b) == RIsNan(a) \/ RIsNan(b) \/ ~RIsFinite(a) \/ ~RIsFinite(b) \/ RClose(a, b, "1e-12")
NearAll(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Near(s[i], t[i])
Judged == c.f \notin {"", "relative"} /\ Good(c)
Positive == Judged => \A i \in DOMAIN Sig(c) : RIsNan(Sig(c)[i]) \/ RLe("0", Sig(c)[i])
Sized == Judged => Len(Sig(c)) = Size(Run(c).x.sh)
Swapped == (Judged /\ c.f = "mul") => NearAll(Sig(c), Sig([c EXCEPT !.a = <<c.a[2], c.a[1]>>]))
SubIsAdd == (Judged /\ c.f = "sub") => NearAll(Sig(c), Sig([c EXCEPT !.f = "add"]))
\* exact operands scale
Scales == (Judged /\ c.f = "mul" /\ IsX(c.a[1]) /\ ~IsX(c.a[2]) /\ c.a[2].sh = <<>>) =>
          NearAll(Sig(c), [i \in DOMAIN x.u |-> RTimes(x.u[i], c.a[2].v[1])])
\* a / b is a times the reciprocal of b
DivIsMul == (Judged /\ c.f = "div" /\ IsX(c.a[2]) /\ c.a[2].sh = <<>> /\ c.a[2].v[1] # "0") =>
            LET y == c.a[2]
                e == M("reciprocal", y, <<>>)
                z == Xq(<< <<"second", "1">> >>, <<>>, <<Vals(e)[1][2]>>, Sig(e))      \* (its units do not matter here)
            IN  NearAll(Sig(c), Sig(B("mul", c.a[1], z)))
SquareIsPow == (Judged /\ c.f = "square") => NearAll(Sig(c), [i \in DOMAIN x.v |-> RTimes("2", RTimes(x.v[i], x.u[i]))])
\* expressing the operand in other units changes nothing physical
Cm(y) == IF ~IsX(y) \/ y.d # U1("meter") THEN y
         ELSE [y EXCEPT !.d = U1("centimeter"), !.v = [i \in DOMAIN y.v |-> RMul(y.v[i], "100")], !.u = [i \in DOMAIN y.u |-> RMul(y.u[i], "100")]]
Covariant == (Judged /\ c.f # "rescale") =>
             LET e == [c EXCEPT !.a = [i \in DOMAIN c.a |-> Cm(c.a[i])]]
                 k == Conv(G0, Run(e).x.d, Run(c).x.d)
             IN  Good(e) /\ NearAll(Sig(c), [i \in DOMAIN Sig(e) |-> RTimes(Sig(e)[i], k)])
SumIsAdd == (Judged /\ c.f = "sum" /\ x.sh = <<2>>) =>
            LET p(i) == Xq(x.d, <<>>, <<x.v[i]>>, <<x.u[i]>>) IN NearAll(Sig(c), Sig(B("add", p(1), p(2))))
MeanIsSum == (Judged /\ c.f = "mean" /\ c.ax = <<>>) =>
             NearAll([i \in DOMAIN Sig(c) |-> RMul(Sig(c)[i], NTxt(Size(x.sh)))], Sig([c EXCEPT !.f = "sum"]))
==============================================================================
