----------------------------- MODULE MC_Construct -----------------------------
(* Construction over a pool of data, designations of units, and types of numbers.
   Invariants: every designation of the same units means the same; nested sequences
   mean the array of their elements; data times unit is construction with the unit;
   converting on construction is undone by converting back; nothing else than data
   of one shape is accepted.  Each state is a case replayed on the library.       *)
EXTENDS Construct

CONSTANTS Tier
U1(k) == << <<k, "1">> >>
Nu(dt, v) == [k |-> "N", dt |-> dt, sh |-> <<>>, v |-> <<v>>]
Li(l) == [k |-> "L", l |-> l]
Ar(dt, sh, v) == [k |-> "A", dt |-> dt, sh |-> sh, v |-> v]
Qt(dt, sh, d, v) == [k |-> "Q", t |-> "Q", dt |-> dt, sh |-> sh, d |-> d, v |-> v]
Qx(sh, d, v, u) == [k |-> "Q", t |-> "X", dt |-> "f8", sh |-> sh, d |-> d, v |-> v, u |-> u]
Uni(k) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> U1(k), v |-> <<"1">>]
Tx(s) == [k |-> "S", s |-> s]
Sg(d) == [k |-> "D", d |-> d]
NoneV == [k |-> "Z"]
I(n) == Nu("i8", n)
F(x) == Nu("f8", x)
Data == {F("2.5"), I("-3"), Nu("b1", "1"), Nu("c16", "1|-2"),
         Li(<<I("1"), I("2"), I("300")>>), Li(<<I("1"), F("2.75")>>), Li(<<Nu("b1", "1"), I("4")>>), Li(<<F("1.5"), Nu("c16", "0|1")>>), Li(<<>>),
         Li(<<Li(<<I("1"), I("2")>>), Li(<<F("0.5"), I("-7")>>)>>), Li(<<Li(<<>>), Li(<<>>)>>), Li(<<Li(<<Li(<<I("5")>>)>>)>>),
         Li(<<I("1"), Li(<<I("2")>>)>>), Li(<<Li(<<I("1")>>), Li(<<I("2"), I("3")>>)>>),
         Ar("f8", <<2, 2>>, <<"1", "-2.5", "nan", "inf">>), Ar("i4", <<3>>, <<"1", "2", "-3">>), Ar("f4", <<2>>, <<"0.5", "1000">>), Ar("f8", <<>>, <<"4.25">>),
         Ar("f8", <<0>>, <<>>), Ar("b1", <<2>>, <<"1", "0">>), Li(<<Ar("f8", <<2>>, <<"1", "2">>), Ar("f8", <<2>>, <<"3", "4">>)>>),
         Ar("c16", <<2>>, <<"1|2", "-0.5|0.25">>), Ar("u1", <<2>>, <<"200", "7">>)}
QData == {Qt("f8", <<2>>, U1("meter"), <<"2.5", "-40">>), Qt("i8", <<2>>, U1("kilometer"), <<"3", "5">>), Qt("f8", <<>>, U1("second"), <<"90">>),
          Qt("f8", <<2>>, <<>>, <<"0.5", "2">>), Qt("f4", <<1>>, U1("foot"), <<"3">>), Uni("meter"), Uni("hour"),
          Qx(<<2>>, U1("meter"), <<"2.5", "4">>, <<"0.5", "0.25">>)}
Good == {Tx("cm"), Uni("centimeter"), Sg(U1("centimeter")), Qt("f8", <<>>, U1("centimeter"), <<"1">>), Qt("i8", <<1>>, U1("centimeter"), <<"1">>), Tx("centimetre"),
         Tx("m/s"), Tx("minute"), Tx("")}
Wrong == {Tx("nounit"), Tx("2*m"), F("1"), I("0"), Li(<<>>), Qt("f8", <<>>, U1("meter"), <<"2">>), Qt("f8", <<>>, U1("second"), <<"0">>),
          Qt("f8", <<2>>, U1("meter"), <<"1", "1">>), Qt("f8", <<0>>, U1("meter"), <<>>), NoneV, Sg(<<>>)}
Dtp == {"", "f8", "i8", "f4", "c16", "b1"}
Sig == {NoneV, F("0.5"), Li(<<F("0.5"), I("2")>>), Ar("f8", <<2>>, <<"0.25", "1">>), Qt("f8", <<2>>, U1("millimeter"), <<"5", "10">>), Qt("f8", <<>>, U1("second"), <<"1">>),
        Qt("f8", <<>>, U1("meter"), <<"0.125">>), Ar("f8", <<2, 2>>, <<"1", "2", "3", "4">>)}
Ev(f, a, dtp) == [o |-> "ctor", f |-> f, a |-> a, dtp |-> dtp]
XData == {x \in Data \cup QData : IF x.k = "Q" THEN TRUE ELSE Shp(x) \in {<<>>, <<2>>, <<2, 2>>} /\ DtS(x) \cap CplxDt = {}}
Cases ==
  {Ev("quantity", <<x, u>>, t) : x \in Data \cup QData, u \in Good \cup Wrong, t \in (IF Tier = "thorough" THEN Dtp ELSE {"", "i8"})}
  \cup {Ev("quantity", <<x, u>>, t) : x \in Data \cup QData, u \in {Tx("cm"), Tx("")}, t \in Dtp}
  \cup {Ev(f, <<x, u>>, "") : f \in {"mul", "div"}, x \in Data, u \in {Uni("meter"), Uni("liter")}}
  \cup {Ev("rmul", <<u, x>>, "") : x \in Data, u \in {Uni("meter")}}
  \cup {Ev("uncertain", <<x, u, w>>, "") : x \in XData, u \in {Tx("cm"), Uni("meter"), Tx("")}, w \in Sig}

VARIABLE c
Init == c \in [f : {"none"}]
Next == /\ c.f = "none" /\ c' \in Cases
        /\ PrintT(ToJson(c'))
Spec == Init /\ [][Next]_c

On(x) == c.f # "none" => x
\* the same expectation whatever names the unit
Means(u) == u \in {Tx("cm"), Uni("centimeter"), Sg(U1("centimeter")), Qt("f8", <<>>, U1("centimeter"), <<"1">>), Qt("i8", <<1>>, U1("centimeter"), <<"1">>), Tx("centimetre")}
Designation == On(c.f = "quantity" /\ Means(c.a[2]) => CtorX(G0, c.a[1], c.a[2], c.dtp) = CtorX(G0, c.a[1], Tx("cm"), c.dtp))
Flattened == On(c.f = "quantity" /\ c.a[1].k = "L" /\ Shp(c.a[1]) # NoShape /\ DtL(c.a[1]) # "" =>
                CtorX(G0, c.a[1], c.a[2], c.dtp) = CtorX(G0, AsArr(c.a[1]), c.a[2], c.dtp))
Product == On(c.f = "mul" => LET x == CtorExp(G0, c)
                                 y == CtorX(G0, c.a[1], Sg(c.a[2].d), IF x.err # "no" \/ "c16" \in x.dt THEN "c16" ELSE "f8")
                             IN  x.err = y.err /\ (x.err = "no" => x.d = y.d /\ x.sh = y.sh /\ Len(x.val) = Len(y.val)
                                                   /\ \A i \in DOMAIN x.val : (x.val[i][1] = "any" \/ x.val[i][2] = y.val[i][2])))
Product2 == On(c.f = "rmul" => CtorExp(G0, c) = CtorExp(G0, [c EXCEPT !.f = "mul", !.a = <<c.a[2], c.a[1]>>]))
\* converting back
Undone == On(c.f = "quantity" /\ c.a[1].k = "Q" /\ c.dtp = "" /\ CtorExp(G0, c).err = "no" =>
             LET x == CtorExp(G0, c)
                 back == CtorX(G0, [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> x.sh, d |-> [i \in {} |-> <<>>], v |-> [i \in DOMAIN x.val |-> x.val[i][2]]], Tx(""), "")
                 f == Conv(G0, x.d, DOf(c.a[1]))
             IN  back.err = "no" /\ \A i \in DOMAIN x.val : REq(RMul(x.val[i][2], f), c.a[1].v[i]))
OneShape == On(c.f \in {"quantity", "mul"} /\ c.a[1].k = "L" /\ Shp(c.a[1]) = NoShape => CtorExp(G0, c).err = "must")
\* wrong units are refused with data of any kind; no units keep those of a quantity
Invalid == On(c.f = "quantity" /\ c.a[2] \in Wrong /\ ~NoUnits(c.a[2]) => CtorExp(G0, c).err = "must" \/ (Shp(c.a[1]) # NoShape /\ CtorExp(G0, c).err = "any"))
Keeps == On(c.f = "quantity" /\ c.a[1].k = "Q" /\ NoUnits(c.a[2]) => CtorExp(G0, c).err # "must" /\ (CtorExp(G0, c).err = "no" => DEq(CtorExp(G0, c).d, DOf(c.a[1]))))
SigmaScales == On(c.f = "uncertain" /\ CtorExp(G0, c).err = "no" =>
                  LET d == CtorExp(G0, c).d
                      s == Sigma(G0, c.a[1], c.a[3], d)
                  IN  Len(s) = Len(CtorExp(G0, c).val) /\ \A i \in DOMAIN s : ~RLt(s[i], "0"))
==============================================================================
