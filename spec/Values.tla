------------------------------- MODULE Values -------------------------------
(* Logged values and verdicts.  An operation of the specification maps the logged
   arguments to an expectation; Judge compares the logged result with it and
   returns the set of violated clauses.

   value   [k |-> "Q", t, dt, sh, v, d]  quantity (t = "Q", "U" unit, "X" uncertain with u, ud)
           [k |-> "A" | "N", dt, sh, v]  plain array or number
           [k |-> "D", d]  signature   [k |-> "S", s]  text   [k |-> "B", b]  boolean
           [k |-> "L", l]  list        [k |-> "O", t]  other
           [k |-> "E", mro, msg]  an exception
   expectation
           [err |-> "must", cls]   refused, with an exception of class cls if given
           [err |-> "no" | "may", k, d, sh, val, rel, t, dt]                            *)
EXTENDS Units, Arr

IsQ(x) == x.k = "Q"
IsPlain(x) == x.k \in {"A", "N"}
IsNumeric(x) == x.k \in {"Q", "A", "N"}
DOf(x) == IF x.k \in {"Q", "D"} THEN DFromSeq(x.d) ELSE DOne
N(x) == Len(x.v)

FloatDt == {"f2", "f4", "f8", "f16", "c8", "c16", "c32"}
IntDt == {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"}
CplxDt == {"c8", "c16", "c32"}
UIntDt == {"u1", "u2", "u4", "u8"}
LowDt == {"f4", "c8"}
RelOf(dts) == IF "f2" \in dts THEN "4e-3" ELSE IF dts \cap LowDt # {} THEN "1e-5" ELSE "1e-11"

Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r

\* --- expectations ------------------------------------------------------------
EMust(cls) == [err |-> "must", cls |-> cls]
ERet(k, d, sh, val, rel) ==
  [err |-> "no", k |-> k, d |-> d, sh |-> sh, val |-> val, rel |-> rel, t |-> {}, dt |-> {}]
EQ(d, sh, val, rel) == ERet("Q", d, sh, val, rel)
EA(sh, val, rel) == ERet("A", DOne, sh, val, rel)
EMay(x) == IF x.err = "no" THEN [x EXCEPT !.err = "may"] ELSE x
ET(x, ts) == IF x.err = "must" THEN x ELSE [x EXCEPT !.t = ts]
EDt(x, dts) == IF x.err = "must" THEN x ELSE [x EXCEPT !.dt = dts]

\* cells: close with scale, exact, remainder, truncated remainder, floor division, one of two, free
C(x, s) == <<"c", x, s>>
X(x) == <<"e", x>>
CellOK(c, v, rel) ==
  CASE c[1] = "c" -> RCloseS(v, c[2], rel, c[3])
    [] c[1] = "e" -> RClose(v, c[2], "0")
    [] c[1] = "m" -> RModOK(v, c[2], c[3], rel)
    [] c[1] = "fm" -> RFmodOK(v, c[2], c[3], rel)
    [] c[1] = "f" -> RFloorDivOK(v, c[2], c[3], rel)
    [] c[1] = "in" -> RLe(RSub(c[2], c[4]), v) /\ RLe(v, RAdd(c[3], c[4]))
    [] c[1] = "set" -> \E i \in DOMAIN c[2] : RClose(v, c[2][i], rel)
    [] c[1] = "any" -> TRUE

HasCls(r, cls) == \E i \in DOMAIN r.mro : r.mro[i] = cls

KindOK(r, k) == IF k = "A" THEN IsPlain(r)
                ELSE IF k = "QA" THEN IsPlain(r) \/ (r.k = "Q" /\ r.d = <<>>)     \* a pure number either way
                ELSE r.k = k
ValsOK(r, val, rel) == /\ Len(r.v) = Len(val)
                       /\ \A i \in DOMAIN r.v : CellOK(val[i], r.v[i], rel)

JudgeRet(r, x) ==
  IF ~KindOK(r, x.k) THEN {"kind"}
  ELSE Clause("shape", r.sh = x.sh)
       \cup (IF x.k = "Q" THEN Clause("units", DWell(r.d) /\ DEq(DOf(r), x.d)) ELSE {})
       \cup (IF r.sh = x.sh THEN Clause("value", ValsOK(r, x.val, x.rel)) ELSE {})
       \cup Clause("type", x.k # "Q" \/ x.t = {} \/ r.t \in x.t)
       \cup Clause("dtype", x.dt = {} \/ r.dt \in x.dt)

Judge(r, x) ==
  IF x.err = "must"
  THEN IF r.k # "E" THEN {"not-refused"} ELSE Clause("error-class", x.cls = "" \/ HasCls(r, x.cls))
  ELSE IF r.k = "E" THEN (IF x.err = "may" THEN {} ELSE {"refused"})
  ELSE JudgeRet(r, x)

\* operands (logged again after the call) are what they were
Untouched(e) == IF Has(e, "post") THEN Clause("operand-changed", e.post = e.a) ELSE {}
Fresh(e) == IF Has(e, "al") THEN Clause("shares-data", ~e.al) ELSE {}

\* a unit argument: text, quantity of magnitude one, signature
Target(G, to) ==
  CASE to.k = "S" -> UnitText(LabD(G), to.s)
    [] to.k = "Q" -> IF to.sh \in {<<>>, <<1>>} /\ REq(to.v[1], "1") THEN Val("ok", "1", DOf(to), FALSE) ELSE Rej
    [] to.k = "D" -> Val("ok", "1", DOf(to), FALSE)
    [] OTHER -> Rej
=============================================================================
