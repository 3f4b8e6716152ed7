------------------------------- MODULE MC_Func --------------------------------
(* The mathematical functions over a pool of arguments.  Invariants: no result
   depends on the units an argument is expressed in; integration undoes
   differentiation; products with an argument itself vanish.  Each state is a
   case replayed on the library.                                              *)
EXTENDS Func

CONSTANTS Tier
Qa(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<Len(v)>>, d |-> d, v |-> v]
Qm(d, sh, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> sh, d |-> d, v |-> v]
Qs(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> d, v |-> <<v>>]
Ar(v) == [k |-> "A", dt |-> "f8", sh |-> <<Len(v)>>, v |-> v]
Nu(v) == [k |-> "N", dt |-> "f8", sh |-> <<>>, v |-> <<v>>]
NoneV == [k |-> "Z"]
U1(k) == << <<k, "1">> >>
MpS == << <<"meter", "1">>, <<"second", "-1">> >>
Ang == {Qa(U1("radian"), <<"0.5", "-0.25", "1.25">>), Qa(U1("arcdegree"), <<"30", "-45", "700">>), Qs(U1("percent"), "50"), Qs(<<>>, "0.75"), Ar(<<"0.5", "2">>),
        Qs(U1("meter"), "1"), Qa(<< <<"foot", "1">>, <<"meter", "-1">> >>, <<"1", "0.5">>), Qm(U1("radian"), <<2, 2>>, <<"0.1", "0.2", "0.3", "4">>)}
Vec == {Qa(U1("meter"), <<"4", "-2.25", "1">>), Qa(U1("centimeter"), <<"400", "-225", "7">>), Qa(U1("second"), <<"1", "2.5", "3">>), Ar(<<"1", "2", "4">>),
        Qa(MpS, <<"3", "0", "-1">>), Qa(<<>>, <<"1", "0.5", "2">>), Qa(U1("percent"), <<"50", "25", "1">>)}
Mat == {Qm(U1("meter"), <<2, 3>>, <<"1", "2", "4", "0.5", "-1", "3">>), Qm(<<>>, <<2, 3>>, <<"1", "2", "4", "0.5", "-1", "3">>),
        [Qm(U1("second"), <<3, 2>>, <<"1", "2", "4", "7", "-1", "3">>) EXCEPT !.dt = "i8"]}
Pha == {Qa(U1("radian"), <<"1", "5", "9", "2">>), Qa(U1("arcdegree"), <<"10", "300", "700", "-100">>), Qa(U1("turn"), <<"0.25", "0.875", "0.125">>), Ar(<<"1", "5", "9">>),
        Qm(U1("arcdegree"), <<2, 2>>, <<"10", "300", "20", "700">>), Qa(U1("meter"), <<"1", "5">>)}
Steps == {Qs(U1("second"), "2"), Qs(U1("meter"), "0.5"), Nu("4"), Qs(U1("hour"), "1"), Qs(<<>>, "0.25")}
Ev(f, a, x) == [o |-> "func", f |-> f, a |-> a, kw |-> FALSE, top |-> TRUE] @@ x
Ax(i) == [ax |-> <<i>>]
AxN == [ax |-> <<>>]
Cases ==
  {Ev(f, <<x>>, [ax |-> <<>>]) : f \in Fn1, x \in Ang}
  \cup {Ev(f, <<x, y>>, [ax |-> <<>>]) : f \in {"arctan2", "hypot"}, x \in Vec, y \in Vec \cup Steps}
  \cup {Ev(f, <<x>>, m @@ [ddof |-> 0]) : f \in FnRed, x \in Vec \cup Mat, m \in {AxN, Ax(0), Ax(-1), Ax(1)}}
  \cup {Ev("diff", <<x>>, Ax(i) @@ [n |-> n]) : x \in Vec \cup Mat, i \in {0, -1, 1}, n \in {1, 2}}
  \cup {Ev("ediff1d", <<x, y, z>>, AxN) : x \in Vec, y \in {NoneV} \cup Steps \cup Vec, z \in {NoneV, Qs(U1("meter"), "9"), Qs(<<>>, "3")}}
  \cup {Ev("gradient", <<x>>, AxN) : x \in Vec \cup Mat}
  \cup {Ev("gradient", <<x, s>>, AxN) : x \in Vec \cup Mat, s \in Steps \cup {Qa(U1("second"), <<"1", "2.5", "3">>)}}
  \cup {Ev("gradient", <<x, s, t>>, AxN) : x \in Mat, s \in Steps, t \in Steps \cup {Qa(U1("second"), <<"1", "2.5", "3">>)}}
  \cup {Ev("cross", <<x, y>>, [cax |-> c, ax |-> <<>>]) : x \in Vec \cup Mat, y \in Vec, c \in {<<-1, -1, -1>>, <<0, 0, 0>>, <<1, -1, 0>>}}
  \cup {Ev("trapz", <<x, y, s>>, Ax(i)) : x \in Vec \cup Mat, y \in {NoneV} \cup Vec, s \in {NoneV} \cup Steps, i \in {0, -1}}
  \cup {Ev("unwrap", <<x, s>>, Ax(i)) : x \in Pha, s \in {NoneV, Qs(U1("arcdegree"), "200"), Qs(U1("radian"), "4"), Nu("3.5"), Qs(U1("meter"), "1")}, i \in {0, -1}}

VARIABLE c
Init == c \in [f : {"none"}]
Next == /\ c.f = "none" /\ c' \in Cases
        /\ PrintT(ToJson(c'))
Spec == Init /\ [][Next]_c

Deca(d) == [i \in DOMAIN d |-> IF d[i][1] = "meter" THEN <<"decameter", d[i][2]>> ELSE IF d[i][1] = "radian" THEN <<"milliradian", d[i][2]>>
                               ELSE IF d[i][1] = "second" THEN <<"minute", d[i][2]>> ELSE d[i]]
ReExp(x) == IF x.k # "Q" THEN x
            ELSE LET f == Conv(G0, DOf(x), DFromSeq(Deca(x.d)))
                 IN  [x EXCEPT !.dt = "f8", !.d = Deca(x.d), !.v = [i \in DOMAIN x.v |-> RMul(x.v[i], f)]]
Re(e) == [e EXCEPT !.a = [i \in DOMAIN e.a |-> ReExp(e.a[i])]]
Same(p, q) ==     \* two expectations mean the same
  \/ p.err = "any" \/ q.err = "any"
  \/ p.err = "must" /\ q.err = "must"
  \/ /\ p.err # "must" /\ q.err # "must" /\ p.sh = q.sh /\ p.k = q.k
     /\ p.k = "Q" => Compat(G0, p.d, q.d)
     /\ \A i \in DOMAIN p.val : p.val[i][1] # "c" \/ q.val[i][1] # "c"
                                \/ RCloseS(p.val[i][2], RMul(q.val[i][2], Conv(G0, q.d, p.d)), "1e-9", p.val[i][3])
On == c.f # "none"
Covariant ==
  On => IF c.f = "gradient" THEN LET p == GradX(G0, c.a)
                                     q == GradX(G0, Re(c).a) IN Len(p) = Len(q) /\ \A i \in DOMAIN p : Same(p[i], q[i])
        ELSE Same(FuncX(G0, c), FuncX(G0, Re(c)))
\* the trapezoidal rule applied to forward differences telescopes: integrating ones over x gives last - first
Telescopes ==
  On /\ c.f = "trapz" /\ c.a[2].k # "Z" /\ Len(c.a[1].sh) = 1 /\ FuncX(G0, c).err = "no"
  => LET ones == [c.a[1] EXCEPT !.v = [i \in DOMAIN @ |-> "1"]]
         x == c.a[2].v
     IN  LET r == FuncX(G0, [c EXCEPT !.a[1] = ones]) IN REq(r.val[1][2], RSub(x[Len(x)], x[1]))
\* sums of first differences telescope
DiffSum ==
  On /\ c.f = "diff" /\ Len(c.a[1].sh) = 1 /\ c.n = 1
  => LET r == FuncX(G0, c)
         v == c.a[1].v IN r.err = "must" \/ REq(RSum([i \in DOMAIN r.val |-> r.val[i][2]]), RSub(v[Len(v)], v[1]))
SelfCross ==
  On /\ c.f = "cross" /\ c.cax = <<-1, -1, -1>> => LET r == CrossX(G0, c.a[1], c.a[1], c) IN r.err = "must" \/ \A i \in DOMAIN r.val : REq(r.val[i][2], "0")
\* unwrapping changes whole turns only
WholeTurns ==
  On /\ c.f = "unwrap" => LET r == FuncX(G0, c) IN r.err # "no" \/ \A i \in DOMAIN r.val : r.val[i][1] = "any" \/
        LET k == RDiv(RMul(RSub(c.a[1].v[i], r.val[i][2]), IF r.k = "Q" THEN Conv(G0, r.d, RadianD) ELSE "1"), TwoPi) IN RCloseS(k, RRint(k), "1e-9", "1")
WrongDims == On /\ c.f \in Fn1 => (FuncX(G0, c).err = "must" <=> c.a[1].k = "Q" /\ ~DNull(DBas(G0, DOf(c.a[1]))))
==============================================================================
