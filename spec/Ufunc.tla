------------------------------- MODULE Ufunc ---------------------------------
(* The unit rules of NumPy's universal functions (C11): for every function the
   value of each element and the units of the result, or its refusal.          *)
EXTENDS Calc

UfCopy  == {"fabs", "absolute", "conjugate", "negative", "rint", "floor", "ceil"}
UfUnif  == {"add", "subtract", "remainder", "fmod", "hypot", "maximum", "minimum"}
UfCmp   == {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal"}
UfTrig  == {"sin", "cos", "tan", "sinh", "cosh", "tanh"}
UfArc   == {"arcsin", "arccos", "arctan", "arcsinh", "arccosh", "arctanh"}
UfLog   == {"log", "log10", "log2", "log1p", "exp", "exp2", "expm1"}
UfLog2  == {"logaddexp", "logaddexp2"}
UfTest  == {"isfinite", "isnan", "isinf"}
Uf1 == UfCopy \cup UfTrig \cup UfArc \cup UfLog \cup UfTest \cup {"square", "reciprocal", "sqrt", "radians", "degrees"}
Uf2 == UfUnif \cup UfCmp \cup UfLog2 \cup {"multiply", "divide", "floor_divide", "power", "arctan2"}
UfKnown == Uf1 \cup Uf2

RadianD == DUnit("radian")
DegreeD == DUnit("arcdegree")
One(x) == IF RLt("1", RAbs(x)) THEN x ELSE "1"
Lo(dts) == IF dts \cap LowDt # {} THEN "2e-4" ELSE "1e-10"
Fn(f, x) == LET w == RFun(f, x) IN IF RIsFinite(w) /\ RIsFinite(x) THEN C(w, IF f \in {"sin", "cos"} THEN One(x) ELSE IF f = "tan" THEN RMul(RAdd("1", RMul(w, w)), One(x)) ELSE RMul(w, One(x))) ELSE <<"any">>
FnDom(f, x) == LET w == RFun(f, x) IN IF RIsFinite(w) /\ RIsFinite(x) THEN C(w, One(w))
                                      ELSE IF RIsNan(w) /\ RIsFinite(x) THEN X("nan") ELSE <<"any">>
RMax(x, y) == IF RIsNan(x) \/ RIsNan(y) THEN "nan" ELSE IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RIsNan(x) \/ RIsNan(y) THEN "nan" ELSE IF RLt(y, x) THEN y ELSE x
B01(b) == IF b THEN "1" ELSE "0"

\* value of one element
Uf1Cell(f, x, dt) ==
  LET int == dt \in IntDt \cup {"b1"} IN
  CASE f \in {"fabs", "absolute"} -> C(RAbs(x), RAbs(x))
    [] f = "conjugate" -> X(RConj(x))
    [] f = "negative" -> X(RNeg(x))
    [] f = "rint" -> X(IF RIsFinite(x) THEN RRint(x) ELSE x)
    [] f = "floor" -> X(IF RIsFinite(x) THEN RFloor(x) ELSE x)
    [] f = "ceil" -> X(IF RIsFinite(x) THEN RCeil(x) ELSE x)
    [] f = "square" -> LET w == RMul(x, x) IN IF int /\ ~RLt(w, "2147483648") THEN <<"any">> ELSE C(w, RMul(RAbs(x), RAbs(x)))
    [] f = "reciprocal" -> IF int THEN (IF REq(x, "0") THEN <<"any">> ELSE X(RTrunc(RDiv("1", x))))
                           ELSE LET w == RDiv("1", x) IN C(w, w)
    [] f = "sqrt" -> IF dt \in CplxDt THEN <<"any">> ELSE FnDom("sqrt", x)
    [] f \in {"radians", "degrees"} -> Fn(f, x)
    [] f \in UfTrig -> IF dt \in CplxDt THEN <<"any">> ELSE Fn(f, x)
    [] f \in UfArc \cup UfLog -> IF dt \in CplxDt THEN <<"any">> ELSE FnDom(f, x)
    [] f = "isfinite" -> X(B01(RIsFinite(x)))
    [] f = "isnan" -> X(B01(RIsNan(x)))
    [] f = "isinf" -> X(B01(~RIsFinite(x) /\ ~RIsNan(x)))
Uf2Cell(f, x, y, int) ==
  CASE f = "hypot" -> LET w == RFun2("hypot", x, y) IN IF RIsFinite(w) THEN C(w, w) ELSE <<"any">>
    [] f = "arctan2" -> LET w == RFun2("arctan2", x, y)
                        \* (the sign of zero is not recorded)
                        IN IF RIsFinite(w) /\ ~REq(x, "0") /\ ~REq(y, "0") THEN C(w, "1") ELSE <<"any">>
    [] f = "maximum" -> X(RMax(x, y))
    [] f = "minimum" -> X(RMin(x, y))
    [] f \in UfLog2 -> LET w == RFun2(f, x, y) IN IF RIsFinite(w) /\ RIsFinite(x) /\ RIsFinite(y) THEN C(w, Big(One(x), y)) ELSE <<"any">>
    [] f = "fmod" -> IF int /\ REq(y, "0") THEN <<"any">> ELSE <<"fm", x, y>>
    [] f = "remainder" -> IF int /\ REq(y, "0") THEN <<"any">> ELSE <<"m", x, y>>
    [] f = "add" -> C(RAdd(x, y), Big(x, y))
    [] f = "subtract" -> C(RSub(x, y), Big(x, y))
CmpName(f) == CASE f = "equal" -> "eq" [] f = "not_equal" -> "ne" [] f = "less" -> "lt" [] f = "less_equal" -> "le"
                [] f = "greater" -> "gt" [] f = "greater_equal" -> "ge"

\* functions which need identical units: those of the result, or refusal
AllZero(x) == \A i \in DOMAIN x.v : REq(x.v[i], "0")
UnifOK(a, b) == \/ IsQ(a) /\ IsQ(b) /\ DEq(DOf(a), DOf(b))
                \/ IsQ(a) /\ ~IsQ(b) /\ (DNull(DOf(a)) \/ AllZero(b))
                \/ ~IsQ(a) /\ IsQ(b) /\ (DNull(DOf(b)) \/ AllZero(a))
\* angle arguments: the unit itself, or one of the same size
AngleOK(G, a, t) == DEq(DOf(a), t)
AngleMay(G, a, t) == Compat(G, DOf(a), t) /\ RClose(Conv(G, DOf(a), t), "1", "1e-9")
Weird(x) == x.dt \in CplxDt \cup {"b1"}
\* number kinds NumPy itself may refuse
Dubious(f, as) ==
  \/ \E i \in DOMAIN as : as[i].dt = "b1"
  \/ \E i \in DOMAIN as : as[i].dt \in CplxDt /\ f \notin {"add", "subtract", "multiply", "divide", "negative", "conjugate", "absolute", "square"}
  \/ f = "power" /\ as[1].dt \in IntDt /\ as[2].dt \in IntDt
AnyCells(x) == [x EXCEPT !.val = [i \in DOMAIN @ |-> <<"any">>]]

Uf1X(G, f, a) ==
  LET cell(x) == Uf1Cell(f, x, a.dt)
      out(k, d) == ET(ERet(k, d, a.sh, Map1(a, cell), Lo({a.dt})), IF k = "Q" /\ a.t = "X" THEN {"X", "Q"} ELSE IF k = "Q" THEN {"Q"} ELSE {})
      d == DOf(a)
  IN  CASE f \in UfCopy -> out("Q", d)
        [] f = "square" -> out("Q", DPow(d, "2"))
        [] f = "reciprocal" -> out("Q", DPow(d, "-1"))
        [] f = "sqrt" -> out("Q", DPow(d, "0.5"))
        [] f \in UfTest -> out("QA", DOne)
        [] f \in UfTrig \cup {"degrees"} ->
             LET r == out(IF f = "degrees" THEN "Q" ELSE "QA", IF f = "degrees" THEN DegreeD ELSE DOne)
             IN IF AngleOK(G, a, RadianD) THEN r ELSE IF AngleMay(G, a, RadianD) THEN EMay(r) ELSE EMust("ValueError")
        [] f = "radians" ->
             LET r == out("Q", RadianD)
             IN IF AngleOK(G, a, DegreeD) THEN r ELSE IF AngleMay(G, a, DegreeD) THEN EMay(r) ELSE EMust("ValueError")
        [] f \in UfLog -> IF DNull(d) THEN out("QA", DOne) ELSE EMust("ValueError")
        [] f \in UfArc -> IF DNull(d) THEN out("Q", RadianD) ELSE EMust("ValueError")

Uf2X(G, f, a, b) ==
  LET sh == BShape(a.sh, b.sh)
      int == a.dt \in IntDt /\ b.dt \in IntDt
      cell(x, y) == Uf2Cell(f, x, y, int)
      ccell(x, y) == BoolCell(CmpExact(CmpName(f), x, y))
      d == IF IsQ(a) THEN DOf(a) ELSE DOf(b)
      q(k, u) == ET(ERet(k, u, sh, Map2(a, b, cell), Lo({a.dt, b.dt})), {})
  IN  IF sh = NoShape THEN EMust("")
      ELSE CASE f = "multiply" -> Mul(G, a, b)
             [] f = "divide" -> Div(G, a, b)
             [] f = "floor_divide" -> FloorDiv(G, a, b)
             [] f = "power" -> Pow(G, a, b)
             [] f \in UfUnif -> IF UnifOK(a, b) THEN q("Q", d) ELSE EMust("ValueError")
             [] f = "arctan2" -> IF UnifOK(a, b) THEN q("QA", DOne) ELSE EMust("ValueError")
             [] f \in UfCmp -> IF UnifOK(a, b) THEN ERet("QA", DOne, sh, Map2(a, b, ccell), "0") ELSE EMust("ValueError")
             [] f \in UfLog2 -> IF DNull(DOf(a)) /\ DNull(DOf(b)) THEN q("QA", DOne) ELSE EMust("ValueError")

UfX(G, f, as) ==
  IF f \notin UfKnown THEN EMust("")                       \* no unit rule
  ELSE LET x == IF f \in Uf1 THEN Uf1X(G, f, as[1]) ELSE Uf2X(G, f, as[1], as[2])
       IN  IF ~Dubious(f, as) THEN x
           ELSE IF x.err = "must" THEN EMust("")
           ELSE IF x.err = "any" THEN x ELSE EMay(AnyCells(x))

\* --- one call, possibly with an output argument -------------------------------
\* e.a: arguments; with out=, e.out is the output before, e.opost after, e.is: the result is that very object
\* arguments other than the output itself stay as they are (so: the argument which is the output)
OthersKept(e) == Clause("operand-changed", \A i \in DOMAIN e.a : i = e.so \/ e.post[i] = e.a[i])
OutKept(e) == IF e.opost = e.out THEN {}
              ELSE IF [e.opost EXCEPT !.v = e.out.v] = e.out THEN {"output-overwritten"} ELSE {"output-changed"}
OutFits(x, o) == x.sh = o.sh
UfChk(G, e) ==
  LET x == UfX(G, e.f, e.a) IN
  IF ~Has(e, "out") THEN JudgeAny(e.r, x) \cup Untouched(e)
  ELSE LET o == e.out
           ret == [x EXCEPT !.k = "Q", !.t = {o.t}, !.dt = {o.dt}]
       IN  IF x.err = "any" THEN {}
           ELSE IF x.err = "must"
           THEN Judge(e.r, IF o.dt \in IntDt \/ BShape(o.sh, e.a[1].sh) # o.sh THEN EMust("") ELSE x) \cup OutKept(e) \cup OthersKept(e)
           ELSE IF e.r.k = "E"
           THEN (IF x.err = "may" \/ ~OutFits(x, o) \/ (o.dt \in IntDt) THEN {} ELSE {"refused"})
                \cup OutKept(e) \cup OthersKept(e)
           ELSE IF ~OutFits(x, o) THEN {}
           ELSE Clause("output-identity", e.is) \cup JudgeRet(e.r, ret) \cup Clause("output", e.opost = e.r) \cup OthersKept(e)
\* methods of ufuncs
UfReduceChk(G, e) ==
  LET a == e.a[1] IN
  IF e.r.k = "E" THEN Untouched(e)
  ELSE IF e.f = "add.reduce" THEN Clause("units", e.r.k = "Q" /\ DEq(DOf(e.r), DOf(a))) \cup Untouched(e)
  ELSE IF e.f = "multiply.reduce" THEN Clause("units", e.r.k = "Q" /\ DEq(DOf(e.r), DPow(DOf(a), ToString(a.sh[1])))) \cup Untouched(e)
  ELSE {}
UfOps == {"uf", "ufred"}
=============================================================================
