------------------------------- MODULE MC_Calc -------------------------------
(* All binary operations over a pool of operands of every kind.  Invariants: the
   laws of the arithmetic the specification defines.  Every state is emitted as a
   case for the implementation.                                                 *)
EXTENDS Calc

CONSTANTS Tier, Ops
Qv(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> d, v |-> <<v>>]
Qa(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<Len(v)>>, d |-> d, v |-> v]
Un(k) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> IF k = "dimensionless" THEN <<>> ELSE << <<k, "1">> >>, v |-> <<"1">>]
Nu(v) == [k |-> "N", dt |-> IF RIsInt(v) THEN "i8" ELSE "f8", sh |-> <<>>, v |-> <<v>>]
Ar(v) == [k |-> "A", dt |-> "f8", sh |-> <<Len(v)>>, v |-> v]
m1 == << <<"meter", "1">> >>
cm == << <<"centimeter", "1">> >>
ms == << <<"meter", "1">>, <<"second", "-1">> >>
kmh == << <<"kilometer", "1">>, <<"hour", "-1">> >>
pc == << <<"percent", "1">> >>
mi2 == << <<"meter", "-2">> >>
Pool0 == {Qv(m1, "6"), Qv(cm, "250"), Qv(ms, "-3"), Qv(<<>>, "2"), Un("meter"), Un("inch"), Un("second"), Nu("3"), Nu("0.5"),
          Qa(m1, <<"1", "-2">>), Ar(<<"2", "5">>), Qa(cm, <<"100", "-200">>)}
Pool1 == Pool0 \cup {Qv(pc, "50"), Qv(kmh, "36"), Qv(mi2, "0.25"), Un("dimensionless"), Un("percent"), Un("radian"), Nu("-1"), Nu("0"),
          Qa(kmh, <<"-10.8", "3.6">>), Qa(<<>>, <<"2", "2">>), Ar(<<"2", "2">>), Qv(m1, "nan"), Qv(m1, "inf"),
          [Qv(m1, "7") EXCEPT !.dt = "i8"], Qa(m1, <<>>), Un("const:natural_unit_of_velocity")}
Pool2 == Pool1 \cup {Qa(pc, <<"50", "125">>), Qv(<< <<"foot", "0.5">> >>, "-2"), Qv(<< <<"joule", "1">> >>, "2.5"), Qv(<< <<"electron_volt", "1">> >>, "4e18"),
          Un("foot"), Un("joule"), Un("count"), Un("const:atomic_unit_of_velocity"), Nu("1e3"), Ar(<<"-1", "0">>), Qv(m1, "0"), Qv(cm, "600"), Qv(kmh, "-10.8")}
Pool == IF Tier = "quick" THEN Pool1 ELSE Pool2

ASSUME \A x \in Pool : \A k \in DOMAIN DOf(x) : KnownUnit(G0, k)

VARIABLES op, a, b
vars == <<op, a, b>>
Init == op = "" /\ a \in Pool /\ b = Nu("0")
Next == /\ op = ""
        /\ op' \in Ops /\ a' = a /\ b' \in Pool
        /\ IsQ(a) \/ IsQ(b')
        /\ PrintT(ToJson([o |-> op', a |-> <<a, b'>>]))
Spec == Init /\ [][Next]_vars

\* the quantity an expectation describes (numeric cells only)
Numeric(x) == x.err = "no" /\ \A i \in DOMAIN x.val : x.val[i][1] \in {"c", "e"}
AsQ(x) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> x.sh, d |-> x.d, v |-> [i \in DOMAIN x.val |-> x.val[i][2]]]
\* same physical values (AsQ carries the signature itself in d)
QD(q) == q.d
SameQty(p, q) == /\ p.sh = q.sh /\ Compat(G0, p.d, q.d)
                 /\ LET f == Conv(G0, q.d, p.d) IN \A i \in DOMAIN p.v : RClose(p.v[i], RMul(q.v[i], f), "1e-30") \/ RIsNan(p.v[i])
X2(o, x, y) == BinX(G0, o, x, y)
Phys(q) == [sh |-> q.sh, d |-> DOf(q), v |-> q.v]
Fits == BShape(a.sh, b.sh) # NoShape
Seqd(d) == LET RECURSIVE S(_)
               S(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN <<<<k, d[k]>>>> \o S(ks \ {k})
           IN S(DOMAIN d)
Back(q) == [q EXCEPT !.d = Seqd(q.d)]
Finite == \A i \in DOMAIN b.v : RIsFinite(b.v[i])
NoZero == \A i \in DOMAIN b.v : ~REq(b.v[i], "0")

Commutes == op \in {"mul", "add"} /\ X2(op, a, b).err = "no"
            => X2(op, b, a).err = "no" /\ SameQty(AsQ(X2(op, a, b)), AsQ(X2(op, b, a)))
MulInverse == op = "mul" /\ Fits /\ Finite /\ NoZero /\ BShape(a.sh, b.sh) = a.sh
              => LET q == AsQ(X2("div", Back(AsQ(X2("mul", a, b))), b))
                 IN  DEq(q.d, DOf(a)) /\ SameQty(q, Phys(a))
AddInverse == op = "add" /\ Finite /\ X2("add", a, b).err = "no" /\ BShape(a.sh, b.sh) = a.sh
              => SameQty(AsQ(X2("sub", Back(AsQ(X2("add", a, b))), b)), Phys(a))
Guarded == op \in {"add", "sub", "mod"} => (X2(op, a, b).err = "must" <=> ~Fits \/ ~Compat(G0, DOf(a), DOf(b)))
SumUnits == op \in {"add", "sub"} /\ X2(op, a, b).err = "no" => DEq(X2(op, a, b).d, IF IsQ(a) THEN DOf(a) ELSE DOf(b))
Square == op = "mul" /\ a = b /\ IsQ(a) => SameQty(AsQ(X2("mul", a, a)), AsQ(X2("pow", a, Nu("2"))))
\* comparison
Cv(o, x, y) == Cmp(G0, o, x, y)
Sharp(x) == x.err = "no" /\ \A i \in DOMAIN x.val : x.val[i][1] = "e"
Bit(x, i) == x.val[i][2] = "1"
CmpSwap == op \in CmpOps /\ Sharp(Cv(op, a, b)) /\ Sharp(Cv(SwapOp(op), b, a))
           => \A i \in DOMAIN Cv(op, a, b).val : Bit(Cv(op, a, b), i) = Bit(Cv(SwapOp(op), b, a), i)
CmpNeg == op = "eq" /\ Sharp(Cv("eq", a, b)) => \A i \in DOMAIN Cv("eq", a, b).val : Bit(Cv("eq", a, b), i) # Bit(Cv("ne", a, b), i)
Nans == \E i \in DOMAIN a.v : RIsNan(a.v[i])
Nansb == \E i \in DOMAIN b.v : RIsNan(b.v[i])
Trichotomy == op = "lt" /\ Sharp(Cv("lt", a, b)) /\ ~Nans /\ ~Nansb /\ Sharp(Cv("eq", a, b)) /\ Sharp(Cv("gt", a, b))
              => \A i \in DOMAIN Cv("lt", a, b).val :
                   Cardinality({o \in {"lt", "eq", "gt"} : Bit(Cv(o, a, b), i)}) = 1
==============================================================================
