------------------------------- MODULE Uncert --------------------------------
(* Uncertain quantities: a standard deviation per element, propagated to first
   order and without correlations, always in the units of the value (C16).      *)
EXTENDS Method

IsX(x) == x.k = "Q" /\ x.t = "X"
Un(x, i) == IF IsX(x) THEN x.u[i] ELSE "0"
\* uncertainty of an operand at a position of the broadcast shape
BUn(x, out, f) == IF IsX(x) THEN x.u[BPos(x.sh, out, f) + 1] ELSE "0"
RHypot(a, b) == IF REq(a, "0") THEN RAbs(b) ELSE IF REq(b, "0") THEN RAbs(a)
                ELSE RPow(RAdd(RMul(a, a), RMul(b, b)), "0.5")
RTimes(a, b) == IF REq(a, "0") \/ REq(b, "0") THEN "0" ELSE RMul(RAbs(a), RAbs(b))
SAny == "nan"       \* no particular value: singular points, overflow

PowSig(x, u, p) == IF REq(p, "0") THEN "0"
                   ELSE IF REq(x, "0") THEN (IF REq(p, "1") THEN u ELSE IF RLt("1", p) THEN "0" ELSE SAny)
                   ELSE RTimes(RTimes(p, RPow(x, RSub(p, "1"))), u)
BinSig(G, op, a, b, t) ==
  LET out == BShape(a.sh, b.sh)
      fa == Conv(G, DOf(a), t)
      fb == Conv(G, DOf(b), t)
      cell(i) ==
        LET x == BGet(a, out, i)
            y == BGet(b, out, i)
            u == BUn(a, out, i)
            w == BUn(b, out, i)
        IN  CASE ~(RIsFinite(x) /\ RIsFinite(y) /\ RIsFinite(u) /\ RIsFinite(w)) -> SAny
              [] op \in {"add", "sub"} -> RHypot(RTimes(u, fa), RTimes(w, fb))
              [] op = "mul" -> RHypot(RTimes(y, u), RTimes(x, w))
              [] op = "div" -> IF REq(y, "0") THEN SAny
                               ELSE RHypot(RDiv(u, RAbs(y)), RDiv(RTimes(x, w), RMul(y, y)))
              [] op = "pow" -> PowSig(x, u, b.v[1])
  IN  [i \in 1..Size(out) |-> cell(i - 1)]
SqrtSum(s) == IF \A i \in DOMAIN s : REq(s[i], "0") THEN "0" ELSE RPow(RSum([i \in DOMAIN s |-> RMul(s[i], s[i])]), "0.5")

\* the part of a reduction
RedSig(a, e) ==
  LET r == Red(a.sh, AxesOf(e, a.sh))
      vs(o) == [j \in DOMAIN r.pos[o] |-> a.v[r.pos[o][j]]]
      us(o) == [j \in DOMAIN r.pos[o] |-> a.u[r.pos[o][j]]]
      \* the uncertainties of the elements that are numbers
      ok(o) == SelectSeq(r.pos[o], LAMBDA p : ~RIsNan(a.v[p]))
      uok(o) == [j \in DOMAIN ok(o) |-> a.u[ok(o)[j]]]
      first(o, up) == LET p == ok(o) IN p[Best([j \in DOMAIN p |-> a.v[p[j]]], 1, 1, up)]
      cell(o) ==
        CASE e.f = "sum" -> SqrtSum(us(o))
          [] e.f = "nansum" -> SqrtSum(uok(o))
          [] e.f = "mean" -> IF r.n = 0 THEN SAny ELSE RDiv(SqrtSum(us(o)), NTxt(r.n))
          [] e.f = "nanmean" -> IF ok(o) = <<>> THEN SAny ELSE RDiv(SqrtSum(uok(o)), NTxt(Len(ok(o))))
          [] e.f \in {"max", "min"} -> IF HasNan(vs(o)) THEN a.u[r.pos[o][ArgBest(vs(o), e.f = "max")]] ELSE a.u[first(o, e.f = "max")]
          [] e.f \in {"nanmax", "nanmin"} -> IF ok(o) = <<>> THEN SAny ELSE a.u[first(o, e.f = "nanmax")]
  IN  [o \in DOMAIN r.pos |-> cell(o)]
\* the sum over no axes, minimum of nothing etc. are judged by their value alone

Pick1(s, ix) == [o \in DOMAIN ix |-> s[ix[o] + 1]]
ScaleU(a, k) == [i \in DOMAIN a.u |-> RTimes(a.u[i], k)]
P0(x) == [k |-> "N", dt |-> "f8", sh |-> <<>>, v |-> <<x>>]

\* expectation of the value, and the uncertainties
UncBin == {"add", "sub", "mul", "div", "pow"}
UncRed == {"sum", "nansum", "mean", "nanmean", "max", "min", "nanmax", "nanmin"}
UncX(G, e) ==
  LET a == e.a[1]
      f == e.f
      XOf(x) == ET(x, {"X"})
  IN  CASE f \in UncBin ->
             LET b == e.a[2]
                 t == IF f \in {"add", "sub"} THEN (IF ~IsQ(a) /\ e.r.k = "Q" /\ e.r.d = <<>> THEN DOne ELSE SumD(a, b)) ELSE DOne
                 x == IF BShape(a.sh, b.sh) = NoShape THEN EMust("")
                      ELSE IF f \in {"add", "sub"} THEN AddSubIn(G, a, b, f = "sub", t) ELSE BinX(G, f, a, b)
                 np == a.k = "N" /\ Has(a, "np") /\ f \in {"add", "sub"}
             IN  [x |-> IF np /\ REq(a.v[1], "0") /\ x.err = "must" THEN [err |-> "any"] ELSE IF np THEN EMay(x) ELSE x, sig |-> IF x.err \in {"must", "any"} THEN <<>> ELSE BinSig(G, f, a, b, t)]
        [] f \in {"neg", "abs"} -> [x |-> XOf(UnX(G, f, a)), sig |-> a.u]
        [] f = "sqrt" -> LET p == P0("0.5") IN [x |-> BinX(G, "pow", a, p), sig |-> BinSig(G, "pow", a, p, DOne)]
        [] f = "square" -> LET p == P0("2") IN [x |-> BinX(G, "pow", a, p), sig |-> BinSig(G, "pow", a, p, DOne)]
        [] f = "reciprocal" -> LET p == P0("-1") IN [x |-> BinX(G, "pow", a, p), sig |-> BinSig(G, "pow", a, p, DOne)]
        [] f = "rescale" -> LET x == Rescale(G, a, e.a[2], "") IN
             [x |-> XOf(x), sig |-> IF x.err \in {"must", "any"} THEN <<>> ELSE ScaleU(a, Conv(G, DOf(a), x.d))]
        [] f = "simplified" -> [x |-> XOf(Simplified(G, a)), sig |-> ScaleU(a, Conv(G, DOf(a), Simp(G, DOf(a))))]
        [] f \in UncRed -> LET y == RedX(G, a, e)
                               x == IF y.err \in {"must", "any"} THEN y ELSE [y EXCEPT !.dt = {}] IN
             [x |-> IF x.err = "any" THEN x ELSE IF f \in {"nanmax", "nanmin"} /\ HasNan(a.v) THEN EMay(XOf(x)) ELSE XOf(x),
              sig |-> IF x.err \in {"must", "any"} THEN <<>> ELSE RedSig(a, e)]
        [] f \in MoveOps -> LET m == MoveMap(f, a.sh, e) IN
             [x |-> XOf(MoveX(G, a, e)), sig |-> IF m = BadMap THEN <<>> ELSE Pick1(a.u, m.ix)]
        [] f = "get" ->        \* the positions an index selects are logged by the driver
             [x |-> XOf(EQ(DOf(a), e.im.sh, [o \in DOMAIN e.im.ix |-> X(a.v[e.im.ix[o] + 1])], "0")), sig |-> Pick1(a.u, e.im.ix)]
        [] f \in {"copy", "deepcopy", "ccopy", "pickle", "astype"} ->
             [x |-> XOf(EQ(DOf(a), a.sh, [i \in DOMAIN a.v |-> X(a.v[i])], "0")), sig |-> a.u]
        [] f = "make" ->       \* UncertainQuantity(a, units of the second, third)
             LET c == Conv(G, DOf(e.a[3]), DOf(e.a[2]))
                 ka == IF IsQ(a) THEN Conv(G, DOf(a), DOf(e.a[2])) ELSE "1"
                 bad == (IsQ(a) /\ ~Compat(G, DOf(a), DOf(e.a[2]))) \/ (IsQ(e.a[3]) /\ ~Compat(G, DOf(e.a[3]), DOf(e.a[2]))) \/ a.sh # e.a[3].sh
             IN  IF bad THEN [x |-> EMust("ValueError"), sig |-> <<>>]
                 ELSE [x |-> XOf(EQ(DOf(e.a[2]), a.sh, [i \in DOMAIN a.v |-> LET w == RMul(a.v[i], ka) IN C(w, w)], "1e-12")),
                       sig |-> [i \in DOMAIN e.a[3].v |-> RTimes(e.a[3].v[i], IF IsQ(e.a[3]) THEN c ELSE "1")]]
        [] f = "setunc" ->     \* plain numbers are pure numbers
             LET b == e.a[2]
                 db == IF IsQ(b) THEN DOf(b) ELSE DOne
             IN  IF a.sh # b.sh \/ ~Compat(G, db, DOf(a)) THEN [x |-> EMust("ValueError"), sig |-> <<>>]
                 ELSE [x |-> XOf(EQ(DOf(a), a.sh, [i \in DOMAIN a.v |-> X(a.v[i])], "0")), sig |-> [i \in DOMAIN b.v |-> RTimes(b.v[i], Conv(G, db, DOf(a)))]]
        [] f = "relative" -> [x |-> EA(a.sh, [i \in DOMAIN a.v |-> IF REq(a.v[i], "0") THEN <<"any">>
                                                                   ELSE LET w == RDiv(a.u[i], a.v[i]) IN C(w, w)], "1e-12"), sig |-> <<>>]
SigOK(v, s) == RIsNan(s) \/ ~RIsFinite(s) \/ RClose(v, s, "1e-9")
USound(r) == /\ r.ush = r.sh /\ DWell(r.ud) /\ DEq(DFromSeq(r.ud), DOf(r))
             /\ \A i \in DOMAIN r.u : RIsNan(r.u[i]) \/ RLe("0", r.u[i])
\* the result is stored in an output argument; NumPy writes the numbers of a refused
\* universal function, and stretches results to larger outputs (C11)
UncOutChk(G, e) ==
  LET w == UncX(G, e)
      x == w.x
      o == e.out
      r == e.r
      same == (IF e.via = "ufunc" THEN {} ELSE Clause("output-changed", e.opost = o)) \cup Untouched(e)
  IN  IF x.err = "any" THEN {}
      ELSE IF x.err = "must" THEN Judge(r, IF o.k # "Q" THEN EMust("") ELSE x) \cup same
      ELSE IF o.k # "Q" \/ x.sh # o.sh THEN (IF e.via = "ufunc" \/ (e.f = "sqrt" /\ o.k = "Q") THEN {} ELSE Judge(r, EMust("")) \cup same)
      ELSE IF r.k = "E" THEN (IF x.err = "may" THEN {} ELSE {"refused"}) \cup same
      ELSE Clause("output-identity", e.is) \cup Clause("output", e.opost = r) \cup Untouched(e)
           \cup JudgeRet(r, [x EXCEPT !.k = "Q", !.t = {o.t}, !.dt = {o.dt}])
           \cup (IF o.t # "X" \/ r.k # "Q" \/ r.t # "X" THEN {}
                 ELSE Clause("uncertainty-units", USound(r))
                      \cup Clause("uncertainty", Len(r.u) = Len(w.sig) /\ \A i \in DOMAIN r.u : SigOK(r.u[i], w.sig[i])))
UncChk(G, e) ==
  IF Has(e, "out") THEN UncOutChk(G, e) ELSE
  LET w == UncX(G, e)
      r == e.r
  IN  (IF Has(e, "kept") THEN Clause("changed-by-refusal", e.kept.v = e.a[1].v /\ e.kept.u = e.a[1].u /\ e.kept.d = e.a[1].d /\ e.kept.ud = e.a[1].ud) ELSE {})
      \cup (IF w.x.err = "any" THEN {} ELSE Judge(r, w.x)) \cup Untouched(e) \cup (IF e.f \in MoveOps \cup {"get"} THEN {} ELSE Fresh(e))
      \cup (IF w.x.err \in {"must", "any"} \/ r.k # "Q" THEN {}
            ELSE IF r.t # "X" THEN {"uncertainty-lost"}
            ELSE Clause("uncertainty-units", USound(r))
                 \cup Clause("uncertainty", Len(r.u) # Len(w.sig) \/ \A i \in DOMAIN r.u : SigOK(r.u[i], w.sig[i])))
==============================================================================
