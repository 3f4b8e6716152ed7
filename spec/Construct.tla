------------------------------ MODULE Construct ------------------------------
(* Construction of quantities and what their accessors report (C21).

   ctor   f: "quantity" Quantity(data, units[, dtype]), "uncertain" UncertainQuantity(data,
          units, uncertainty[, dtype]), "mul" data*unit, "rmul" unit*data, "div" data/unit
          a: the arguments, dtp: the requested type of numbers ("" none)
          acc: what the accessors of the result hand out
          aft, acc2: the result again, after everything handed out and the arguments for the
               units were changed                                                     *)
EXTENDS Uncert

\* --- data ------------------------------------------------------------------------
\* shape of nested sequences of numbers and arrays
RECURSIVE Shp(_), FlatL(_, _), Flat(_), DtS(_), HasQty(_)
Shp(x) == IF x.k # "L" THEN (IF IsNumeric(x) THEN x.sh ELSE NoShape)
          ELSE IF x.l = <<>> THEN <<0>>
          ELSE LET s == Shp(x.l[1]) IN
               IF s # NoShape /\ \A i \in DOMAIN x.l : Shp(x.l[i]) = s THEN <<Len(x.l)>> \o s ELSE NoShape
FlatL(l, i) == IF i > Len(l) THEN <<>> ELSE Flat(l[i]) \o FlatL(l, i + 1)
Flat(x) == IF x.k = "L" THEN FlatL(x.l, 1) ELSE x.v
DtS(x) == IF x.k # "L" THEN {x.dt} ELSE UNION {DtS(x.l[i]) : i \in DOMAIN x.l}
HasQty(x) == x.k = "Q" \/ (x.k = "L" /\ \E i \in DOMAIN x.l : HasQty(x.l[i]))
\* the common type of numbers of a sequence ("" unspecified)
DtL(x) == IF x.k # "L" THEN x.dt
          ELSE LET s == DtS(x) IN
               IF s = {} THEN "f8"
               ELSE IF ~(s \subseteq {"b1", "i8", "f8", "c16"}) THEN (IF Cardinality(s) = 1 THEN CHOOSE d \in s : TRUE ELSE "")
               ELSE IF "c16" \in s THEN "c16" ELSE IF "f8" \in s THEN "f8" ELSE IF "i8" \in s THEN "i8" ELSE "b1"
\* the data as an array
AsArr(x) == [k |-> "A", dt |-> DtL(x), sh |-> Shp(x), v |-> Flat(x)]

IntLim(dt) == CASE dt = "i1" -> <<"-128", "127">> [] dt = "i2" -> <<"-32768", "32767">> [] dt = "i4" -> <<"-2147483648", "2147483647">>
                [] dt = "i8" -> <<"-9007199254740992", "9007199254740992">>
                [] dt = "u1" -> <<"0", "255">> [] dt = "u2" -> <<"0", "65535">> [] dt = "u4" -> <<"0", "4294967295">>
                [] dt = "u8" -> <<"0", "9007199254740992">>
\* one value as a number of type dt; slack: the value itself is known up to rounding
CastCell(x, from, dt, slack) ==
  IF dt = "" \/ dt = from THEN (IF slack = "0" THEN X(x) ELSE C(x, x))
  ELSE CASE dt \in IntDt ->
              IF ~RIsFinite(x) \/ ~RLe(IntLim(dt)[1], RTrunc(x)) \/ ~RLe(RTrunc(x), IntLim(dt)[2]) THEN <<"any">>
              ELSE IF slack = "0" THEN X(RTrunc(x))
              ELSE LET e == RMul(x, slack) IN IF RLt("0.4", RAbs(e)) THEN <<"any">> ELSE <<"set", <<RTrunc(RSub(x, e)), RTrunc(RAdd(x, e))>> >>
         [] dt = "b1" -> X(IF REq(x, "0") THEN "0" ELSE "1")
         [] dt = "f2" -> IF RIsFinite(x) /\ (RLt("6e4", RAbs(x)) \/ (RLt(RAbs(x), "1e-3") /\ ~REq(x, "0"))) THEN <<"any">> ELSE C(x, x)
         [] dt \in LowDt -> IF RIsFinite(x) /\ (RLt("1e37", RAbs(x)) \/ (RLt(RAbs(x), "1e-37") /\ ~REq(x, "0"))) THEN <<"any">> ELSE C(x, x)
         [] OTHER -> IF slack = "0" THEN X(x) ELSE C(x, x)
\* numbers an integer type cannot hold: refused or wrapped
Fits(x) == IF x.err = "no" /\ \E i \in DOMAIN x.val : x.val[i][1] = "any" THEN EMay(x) ELSE x
DtSet(dt) == IF dt = "" THEN {} ELSE {dt}
\* complex numbers as real ones, refused or cut: unspecified
Lossy(from, dt) == dt # "" /\ from \in CplxDt /\ dt \notin CplxDt

\* --- units argument ----------------------------------------------------------------
NoUnits(u) == u.k = "Z" \/ (u.k = "S" /\ u.s = "") \/ (u.k = "D" /\ u.d = <<>>)

PlainCtor(G, x, u, dtp) ==
  LET a == AsArr(x)
      tg == Target(G, u)
      dt == IF dtp = "" THEN a.dt ELSE dtp
      ret == EDt(ET(EQ(tg.d, a.sh, [i \in DOMAIN a.v |-> CastCell(a.v[i], a.dt, dtp, "0")], RelOf({a.dt, dt})), {"Q"}), DtSet(dt))
  IN  IF a.sh = NoShape THEN EMust("")
      ELSE IF HasQty(x) THEN [err |-> "any"]        \* sequences of quantities
      ELSE IF tg.st = "rej" THEN EMust("")
      ELSE IF tg.st = "may" \/ Lossy(a.dt, dtp) THEN [err |-> "any"]
      ELSE IF tg.st = "mayd" THEN EMay(ret) ELSE Fits(ret)
QtyCtor(G, q, u, dtp) ==
  LET tg == IF NoUnits(u) THEN Val("ok", "1", DOf(q), FALSE) ELSE Target(G, u)
      same == DEq(DOf(q), tg.d)
      f == Conv(G, DOf(q), tg.d)
      from == IF same \/ q.dt \in FloatDt THEN q.dt ELSE "f8"
      slack == IF same THEN "0" ELSE IF q.dt \in LowDt THEN "1e-5" ELSE "1e-12"
      ret == EDt(ET(EQ(tg.d, q.sh, [i \in DOMAIN q.v |-> CastCell(RMul(q.v[i], f), from, dtp, slack)], RelOf({q.dt} \cup DtSet(dtp))), {"Q"}),
                 IF dtp # "" THEN {dtp} ELSE IF same THEN {q.dt} ELSE FloatOf(q.dt))
  IN  IF tg.st = "rej" THEN EMust("")
      ELSE IF tg.st = "may" \/ Lossy(q.dt, dtp) THEN [err |-> "any"]
      ELSE IF ~Compat(G, DOf(q), tg.d) THEN EMust("ValueError")
      ELSE IF tg.st = "mayd" THEN EMay(ret) ELSE Fits(ret)
CtorX(G, x, u, dtp) == IF x.k = "Q" THEN QtyCtor(G, x, u, dtp) ELSE PlainCtor(G, x, u, dtp)

\* data by a unit, a unit by data, data divided by a unit
TimesX(G, x, un, div) ==
  LET a == AsArr(x)
      d == IF div THEN DPow(DOf(un), "-1") ELSE DOf(un)
  IN  IF a.sh = NoShape THEN EMust("")
      ELSE IF HasQty(x) THEN [err |-> "any"]
      ELSE EDt(ET(EQ(d, a.sh, [i \in DOMAIN a.v |-> IF a.dt \in CplxDt /\ ~RIsFinite(a.v[i]) THEN <<"any">> ELSE C(a.v[i], a.v[i])], "1e-15"), IF un.t = "X" \/ HasConst(un) THEN {"Q", "X"} ELSE {"Q"}),
               IF a.dt \in CplxDt THEN {"c16"} ELSE {"f8"})

\* uncertain: value, standard deviations
UncCtor(G, x, u, w, dtp) ==
  LET v == CtorX(G, x, u, dtp)
      s == IF w.k = "Q" THEN [sh |-> w.sh] ELSE [sh |-> Shp(w)]
  IN  IF v.err \in {"must", "any"} THEN v
      ELSE IF w.k = "Z" THEN ET(v, {"X"})
      ELSE IF s.sh = NoShape THEN EMust("")
      ELSE IF HasQty(w) /\ w.k = "L" THEN [err |-> "any"]
      ELSE IF s.sh # v.sh THEN EMust("ValueError")
      ELSE IF w.k = "Q" /\ ~Compat(G, DOf(w), v.d) THEN EMust("ValueError")
      ELSE ET(v, {"X"})
\* nothing is said about complex data or integer results
Sigma(G, x, w, d) ==
  IF w.k = "Z" THEN (IF x.k = "Q" /\ x.t = "X" THEN LET f == RAbs(Conv(G, DOf(x), d)) IN [i \in DOMAIN x.u |-> RTimes(x.u[i], f)]
                     ELSE [i \in DOMAIN Flat(x) |-> "0"])
  ELSE IF w.k = "Q" THEN LET f == RAbs(Conv(G, DOf(w), d)) IN [i \in DOMAIN w.v |-> RTimes(w.v[i], f)]
  ELSE Flat(w)
SigmaOK(G, e) ==
  LET r == e.r
      s == Sigma(G, e.a[1], e.a[3], DOf(r))
  IN  /\ r.ush = r.sh /\ DEq(DFromSeq(r.ud), DOf(r)) /\ Len(s) = Len(r.u)
      /\ \A i \in DOMAIN s : RCloseS(r.u[i], s[i], RelOf({e.a[1].dt : z \in IF IsNumeric(e.a[1]) THEN {1} ELSE {}} \cup DtSet(e.dtp)), s[i])

CtorExp(G, e) ==
  CASE e.f = "quantity" -> CtorX(G, e.a[1], e.a[2], e.dtp)
    [] e.f = "uncertain" -> UncCtor(G, e.a[1], e.a[2], e.a[3], IF e.dtp = "" THEN "f8" ELSE e.dtp)
    [] e.f \in {"mul", "div"} -> TimesX(G, e.a[1], e.a[2], e.f = "div")
    [] e.f = "rmul" -> TimesX(G, e.a[2], e.a[1], FALSE)

\* --- accessors -----------------------------------------------------------------------
SameV(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : RClose(s[i], t[i], "0")
AccOK(q, c) ==
  /\ c.mag.k = "A" /\ c.mag.sh = q.sh /\ c.mag.v = q.v /\ c.mag.dt = q.dt
  /\ c.dim.k = "D" /\ DEq(DOf(c.dim), DOf(q))
  /\ c.units.k = "Q" /\ c.units.sh = <<>> /\ REq(c.units.v[1], "1") /\ DEq(DOf(c.units), DOf(q))
  /\ c.real.k = "Q" /\ c.real.sh = q.sh /\ SameV(c.real.v, [i \in DOMAIN q.v |-> RRe(q.v[i])]) /\ DEq(DOf(c.real), DOf(q))
  /\ c.imag.k = "Q" /\ c.imag.sh = q.sh /\ SameV(c.imag.v, [i \in DOMAIN q.v |-> RIm(q.v[i])]) /\ DEq(DOf(c.imag), DOf(q))
  /\ c.shape = q.sh /\ c.size = Len(q.v) /\ c.ndim = Len(q.sh)
CtorChk(G, e) ==
  JudgeAny(e.r, CtorExp(G, e))
  \cup Untouched(e)
  \cup (IF e.r.k # "Q" THEN {}
        ELSE Clause("accessors", AccOK(e.r, e.acc)) \cup Clause("handed-out", e.aft = e.r /\ e.acc2 = e.acc)
             \cup (IF e.f = "uncertain" /\ e.r.t = "X" /\ e.r.dt \notin CplxDt THEN Clause("uncertainty", SigmaOK(G, e)) ELSE {}))
==============================================================================
