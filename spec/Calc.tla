-------------------------------- MODULE Calc --------------------------------
(* Arithmetic, comparison and conversion of quantities, element-wise with
   broadcasting, and the algebra of signatures.                                *)
EXTENDS Values

QT(a, b) == IF (IsQ(a) /\ a.t = "X") \/ (IsQ(b) /\ b.t = "X") THEN {"X"} ELSE {"Q"}

Map2(a, b, Cell(_, _)) ==
  LET out == BShape(a.sh, b.sh)
  IN  [i \in 1..Size(out) |-> Cell(BGet(a, out, i - 1), BGet(b, out, i - 1))]

Big(x, y) == RMaxAbs(<<x, y>>)
Rel2(a, b) == RelOf({a.dt, b.dt})
\* operations on two integers are exact
IntOnly(a, b) == a.dt \in IntDt /\ b.dt \in IntDt

Mul(G, a, b) ==
  LET cell(x, y) == LET p == RMul(x, y) IN C(p, RMul(RAbs(x), RAbs(y)))
  IN  ET(EQ(DMul(DOf(a), DOf(b)), BShape(a.sh, b.sh), Map2(a, b, cell), IF IntOnly(a, b) THEN "0" ELSE Rel2(a, b)), QT(a, b))
Div(G, a, b) ==
  LET zero(x, y) == REq(y, "0") /\ ~REq(x, "0") /\ ~RIsNan(x)      \* the sign of a zero is not logged
      cell(x, y) == IF zero(x, y) THEN (IF {a.dt, b.dt} \cap CplxDt = {} THEN <<"set", <<"inf", "-inf">>>> ELSE <<"any">>)
                    ELSE LET p == RDiv(x, y) IN C(p, RAbs(p))
  IN  ET(EQ(DDiv(DOf(a), DOf(b)), BShape(a.sh, b.sh), Map2(a, b, cell), Rel2(a, b)), QT(a, b))
\* floor of the quotient of the magnitudes
FloorDiv(G, a, b) ==
  LET cell(x, y) == IF IntOnly(a, b) /\ REq(y, "0") THEN <<"any">> ELSE <<"f", x, y>>
  IN  EQ(DDiv(DOf(a), DOf(b)), BShape(a.sh, b.sh), Map2(a, b, cell), IF IntOnly(a, b) THEN "0" ELSE Rel2(a, b))

\* units of a sum: those of the left quantity
SumD(a, b) == IF IsQ(a) THEN DOf(a) ELSE DOf(b)
AddSubIn(G, a, b, sub, t) ==
  LET fa == Conv(G, DOf(a), t)
      fb == Conv(G, DOf(b), t)
      cell(x, y) == LET u == RMul(x, fa)
                        w == RMul(y, fb)
                        z == IF sub THEN RSub(u, w) ELSE RAdd(u, w)
                    IN  IF {a.dt, b.dt} \subseteq UIntDt /\ RLt(z, "0") THEN <<"any">> ELSE C(z, Big(u, w))    \* wraps around
  IN  IF ~Compat(G, DOf(a), DOf(b)) THEN EMust("")
      ELSE ET(EQ(t, BShape(a.sh, b.sh), Map2(a, b, cell),
                 IF IntOnly(a, b) /\ DEq(DOf(a), DOf(b)) THEN "0" ELSE Rel2(a, b)), QT(a, b))
AddSub(G, a, b, sub) == AddSubIn(G, a, b, sub, SumD(a, b))
Mod(G, a, b) ==
  LET t  == SumD(a, b)
      fa == Conv(G, DOf(a), t)
      fb == Conv(G, DOf(b), t)
      cell(x, y) == IF IntOnly(a, b) /\ REq(y, "0") THEN <<"any">> ELSE <<"m", RMul(x, fa), RMul(y, fb)>>
  IN  IF ~Compat(G, DOf(a), DOf(b)) THEN EMust("")
      ELSE EQ(t, BShape(a.sh, b.sh), Map2(a, b, cell), Rel2(a, b))

Uniform(b) == \A i \in DOMAIN b.v : REq(b.v[i], b.v[1])
Pow(G, a, b) ==
  LET p == b.v[1]
      cell(x, y) == LET w == RPow(x, y)
                    IN  IF IntOnly(a, b) /\ ~RLt(RAbs(w), "2147483648") THEN <<"any">>     \* machine integers overflow
                        ELSE IF REq(x, "0") /\ RLt(y, "0") THEN (IF a.dt \in CplxDt THEN <<"any">> ELSE <<"set", <<"inf", "-inf">>>>)
                        ELSE C(w, RAbs(w))
      ret0 == ET(EQ(DPow(DOf(a), p), BShape(a.sh, b.sh), Map2(a, b, cell),
                   IF IntOnly(a, b) THEN "0" ELSE IF {a.dt, b.dt} \cap LowDt # {} THEN "1e-4" ELSE "1e-11"), QT(a, b))
      ret == IF IsQ(a) THEN ret0 ELSE [ret0 EXCEPT !.k = "QA", !.t = {}]
  IN  IF IsQ(b) /\ ~DNull(DOf(b)) THEN EMust("ValueError")
      ELSE IF N(b) = 0 THEN [err |-> "any"]
      ELSE IF ~Uniform(b) THEN EMust("ValueError")
      ELSE IF a.dt \in IntDt /\ b.dt \in IntDt /\ RSign(p) < 0 THEN EMay([ret EXCEPT !.val = [i \in DOMAIN @ |-> <<"any">>]])
      ELSE ret

BinX(G, op, a, b) ==
  IF BShape(a.sh, b.sh) = NoShape THEN EMust("")
  ELSE CASE op = "mul" -> Mul(G, a, b)
         [] op = "div" -> Div(G, a, b)
         [] op = "fdiv" -> FloorDiv(G, a, b)
         [] op = "add" -> AddSub(G, a, b, FALSE)
         [] op = "sub" -> AddSub(G, a, b, TRUE)
         [] op = "mod" -> Mod(G, a, b)
         [] op = "pow" -> Pow(G, a, b)
BinOps == {"mul", "div", "fdiv", "add", "sub", "mod", "pow"}

\* --- one operand ---------------------------------------------------------------
Map1(a, Cell(_)) == [i \in DOMAIN a.v |-> Cell(a.v[i])]
SameQ(a, Cell(_)) == EQ(DOf(a), a.sh, Map1(a, Cell), RelOf({a.dt}))
UnOps == {"neg", "pos", "abs"}
UnX(G, op, a) ==
  CASE op = "neg" -> LET c(x) == X(RNeg(x)) IN SameQ(a, c)
    [] op = "pos" -> LET c(x) == X(x) IN EMay(SameQ(a, c))
    [] op = "abs" -> LET c(x) == C(RAbs(x), RAbs(x)) IN SameQ(a, c)

\* --- comparison ------------------------------------------------------------------
CmpOps == {"eq", "ne", "lt", "le", "gt", "ge"}
SwapOp(op) == CASE op = "lt" -> "gt" [] op = "gt" -> "lt" [] op = "le" -> "ge" [] op = "ge" -> "le" [] OTHER -> op
\* the outcome for two exactly known values
CmpExact(op, x, y) ==
  CASE op = "eq" -> REq(x, y) [] op = "ne" -> ~REq(x, y) [] op = "lt" -> RLt(x, y)
    [] op = "le" -> RLe(x, y) [] op = "gt" -> RLt(y, x) [] op = "ge" -> RLe(y, x)
BoolCell(b) == X(IF b THEN "1" ELSE "0")
SmallInt(x) == RIsInt(x) /\ RLt(RAbs(x), "1e12")
\* conversions that are exact in floating point: between factors that are integers
ExactConv(G, d, t) == DEq(d, t) \/ LET fd == DFac(G, d)
                                       ft == DFac(G, t)
                                   IN  SmallInt(fd) /\ SmallInt(ft) /\ SmallInt(RDiv(fd, ft))
Cmp(G, op, a, b) ==
  LET ok == Compat(G, DOf(a), DOf(b))
      t == DOf(a)
      f == Conv(G, DOf(b), t)
      ex == ExactConv(G, DOf(b), t)
      rel == RelOf({a.dt, b.dt})
      neg(d) == RSign(DFac(G, d)) < 0                \* degrees west and the like
      cell(x, y) == LET w == RMul(y, f)
                    IN  IF op \notin {"eq", "ne"} /\ (neg(DOf(a)) \/ neg(DOf(b))) THEN <<"any">>
                        ELSE IF (ex /\ (DEq(DOf(b), t) \/ SmallInt(y))) \/ ~RClose(x, w, rel)
                        THEN BoolCell(CmpExact(op, x, w)) ELSE <<"any">>
      fill(v) == LET c(x, y) == BoolCell(v) IN Map2(a, b, c)
      out == BShape(a.sh, b.sh)
      both == IsQ(a) /\ IsQ(b)
  IN  IF out = NoShape THEN [err |-> "any"]
      ELSE IF ~both /\ ~(DNull(DOf(a)) /\ DNull(DOf(b))) THEN [err |-> "any"]   \* units and a plain number
      ELSE IF ok THEN EDt(EA(out, Map2(a, b, cell), "0"), {"b1"})
      ELSE IF op = "eq" THEN EA(out, fill(FALSE), "0")
      ELSE IF op = "ne" THEN EA(out, fill(TRUE), "0")
      ELSE EMust("")

\* --- conversion --------------------------------------------------------------------
FloatOf(dt) == IF dt \in FloatDt THEN {dt} ELSE {}
ScaledE(G, a, t, rel, exact) ==
  LET f == Conv(G, DOf(a), t)
      cell(x) == LET w == RMul(x, f) IN C(w, w)
  IN  EQ(t, a.sh, Map1(a, cell), IF exact /\ DEq(DOf(a), t) THEN "0" ELSE rel)
Scaled(G, a, t, rel) == ScaledE(G, a, t, rel, TRUE)

\* rescale(to), optionally with a dtype; same: keeps the type t of the operand
Rescale(G, a, to, dt) ==
  LET tg == Target(G, to)
      d2 == IF dt = "" THEN a.dt ELSE dt
      lowered == dt # "" /\ dt \notin FloatDt
      ret == EDt(ET(ScaledE(G, a, tg.d, RelOf({a.dt, d2}), dt = ""), IF a.t = "X" THEN {"X"} ELSE {"Q"}),
                 IF dt = "" THEN FloatOf(d2) ELSE {})
  IN  IF tg.st = "rej" THEN EMust("")
      ELSE IF tg.st = "may" THEN [err |-> "any"]
      ELSE IF ~Compat(G, DOf(a), tg.d) THEN EMust("ValueError")
      ELSE IF lowered /\ DEq(DOf(a), tg.d) THEN [err |-> "any"]   \* an explicit integer dtype truncates
      ELSE IF tg.st = "mayd" THEN EMay(ret)
      ELSE ret
\* (a constant may bring its own uncertainty)
HasConst(a) == \E k \in DOMAIN DOf(a) : SStarts(k, "const:")
Simplified(G, a) == ET(Scaled(G, a, Simp(G, DOf(a)), RelOf({a.dt})),
                       IF a.t = "X" THEN {"X"} ELSE IF HasConst(a) THEN {"Q", "X"} ELSE {"Q"})
DimlessMag(G, a) == IF ~Compat(G, DOf(a), DOne) THEN EMust("ValueError")
                    ELSE LET x == Scaled(G, a, DOne, RelOf({a.dt})) IN [x EXCEPT !.k = "A"]
Magnitude(a) == LET c(x) == X(x) IN EDt(EA(a.sh, Map1(a, c), "0"), {a.dt})

\* --- the algebra of signatures ----------------------------------------------------
DRes(r, d) == IF r.k # "D" THEN {"kind"} ELSE Clause("units", DWell(r.d) /\ DEq(DOf(r), d))
BRes(r, b) == IF r.k # "B" THEN {"kind"} ELSE Clause("value", r.b = b)
Refused(r, cls) == Judge(r, EMust(cls))
DimChk(G, e) ==
  LET a == DOf(e.a[1])
      r == e.r
      y == e.a[2]
      isD == Len(e.a) > 1 /\ y.k = "D"
      b == IF isD THEN DOf(y) ELSE DOne
      scal == Len(e.a) > 1 /\ y.k = "N"
      op == e.f
      inplace == op \in {"imul", "idiv", "ipow", "iadd", "isub"}
      res == CASE op \in {"mul", "imul"} -> IF isD THEN DRes(r, DMul(a, b)) ELSE Refused(r, "")
               [] op \in {"div", "idiv"} -> IF isD THEN DRes(r, DDiv(a, b)) ELSE Refused(r, "")
               [] op \in {"pow", "ipow"} -> IF scal THEN DRes(r, DPow(a, y.v[1])) ELSE Refused(r, "")
               [] op \in {"add", "sub", "iadd", "isub"} -> IF isD /\ DEq(a, b) THEN DRes(r, a) ELSE Refused(r, "")
               [] op = "eq" -> BRes(r, isD /\ DEq(a, b))
               [] op = "ne" -> BRes(r, ~(isD /\ DEq(a, b)))
               [] op = "hasheq" -> IF r.k # "B" THEN {"kind"} ELSE Clause("hash", DEq(a, b) => r.b)
               [] op = "copy" -> DRes(r, a)
               [] op = "simplified" -> DRes(r, Simp(G, a))
               [] op = "ndims" -> IF r.k # "N" THEN {"kind"}
                                  ELSE Clause("value", RClose(r.v[1], DAbsSum(Simp(G, a)), "1e-9"))
               [] op = "identity" -> DRes(r, a)
  IN  res \cup
      (IF inplace
       THEN Clause("operand-changed",
              /\ IF r.k = "E" THEN e.post[1] = e.a[1] ELSE DEq(DOf(e.post[1]), DOf(r))
              /\ (Len(e.a) > 1 /\ ~(Has(e, "self") /\ e.self) => e.post[2] = e.a[2]))
       ELSE Untouched(e))

\* --- verdict -------------------------------------------------------------------------
JudgeAny(r, x) == IF x.err = "any" THEN {} ELSE Judge(r, x)
CalcOps == BinOps \cup UnOps \cup CmpOps \cup {"rescale", "simplified", "dimless", "mag", "dim", "convf"}
CalcChk(G, e) ==
  LET a == e.a[1] IN
  CASE e.o \in {"add", "sub"} /\ ~IsQ(a) /\ e.r.k = "Q" /\ e.r.d = <<>> ->
         \* a sum with a plain number on the left may also be a pure number
         JudgeAny(e.r, IF BShape(a.sh, e.a[2].sh) = NoShape THEN EMust("") ELSE AddSubIn(G, a, e.a[2], e.o = "sub", DOne))
         \cup Untouched(e) \cup Fresh(e)
    [] e.o \in {"add", "sub", "mod"} /\ a.k = "N" /\ Has(a, "np") ->
         \* numpy scalars apply the ufunc rule: identical units only
         \* (an exact zero fits any units)
         LET z == REq(a.v[1], "0") /\ ~Compat(G, DOne, DOf(e.a[2]))
             a0 == IF z THEN [e.a[2] EXCEPT !.v = a.v, !.sh = <<>>, !.dt = a.dt, !.t = "Q"] ELSE a
         IN JudgeAny(e.r, EMay(BinX(G, e.o, a0, e.a[2]))) \cup Untouched(e) \cup Fresh(e)
    [] e.o \in BinOps -> JudgeAny(e.r, BinX(G, e.o, a, e.a[2])) \cup Untouched(e) \cup Fresh(e)
    [] e.o \in UnOps -> JudgeAny(e.r, UnX(G, e.o, a)) \cup Untouched(e) \cup Fresh(e)
    [] e.o \in CmpOps -> JudgeAny(e.r, Cmp(G, e.o, a, e.a[2])) \cup Untouched(e)
    [] e.o = "rescale" -> JudgeAny(e.r, Rescale(G, a, e.a[2], IF Has(e, "dt") THEN e.dt ELSE "")) \cup Untouched(e) \cup Fresh(e)
    [] e.o = "simplified" -> JudgeAny(e.r, Simplified(G, a)) \cup Untouched(e) \cup Fresh(e)
    [] e.o = "dimless" -> JudgeAny(e.r, DimlessMag(G, a)) \cup Untouched(e)
    [] e.o = "mag" -> JudgeAny(e.r, Magnitude(a)) \cup Untouched(e)
    [] e.o = "dim" -> DimChk(G, e)
=============================================================================
