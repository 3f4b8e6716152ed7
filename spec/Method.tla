------------------------------- MODULE Method --------------------------------
(* Array methods: reductions over any set of axes, scans, index results, limits,
   rounding and rearrangements, with the units each of them implies (C12).     *)
EXTENDS Ufunc

\* --- groups of positions over a set of (1-based) axes -------------------------
Kept(sh, axs) == SelectSeq([i \in DOMAIN sh |-> i], LAMBDA i : i \notin axs)
Gone(sh, axs) == SelectSeq([i \in DOMAIN sh |-> i], LAMBDA i : i \in axs)
SubSh(sh, ax) == [i \in DOMAIN ax |-> sh[ax[i]]]
IndexIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Red(sh, axs) ==       \* [sh: shape of the result, pos: result position -> positions reduced into it]
  LET k == Kept(sh, axs)
      g == Gone(sh, axs)
      ks == SubSh(sh, k)
      gs == SubSh(sh, g)
      at(o, r) == Rav(sh, [i \in DOMAIN sh |-> IF i \in axs THEN Coord(gs, r, IndexIn(g, i)) ELSE Coord(ks, o, IndexIn(k, i))])
  IN  [sh |-> ks, n |-> Size(gs), pos |-> [o \in 1..Size(ks) |-> [r \in 1..Size(gs) |-> at(o - 1, r - 1) + 1]]]
AllAxes(sh) == DOMAIN sh
AxesOf(e, sh) == IF e.ax = <<>> THEN AllAxes(sh) ELSE {NormAxis(e.ax[i], Len(sh)) : i \in DOMAIN e.ax}
AxesOK(e, sh) == \A i \in DOMAIN e.ax : AxisOK(e.ax[i], Len(sh)) /\ \A j \in DOMAIN e.ax : j # i => NormAxis(e.ax[i], Len(sh)) # NormAxis(e.ax[j], Len(sh))

\* --- values of reductions ------------------------------------------------------
NoNan(s) == SelectSeq(s, LAMBDA x : ~RIsNan(x))
HasNan(s) == \E i \in DOMAIN s : RIsNan(s[i])
SumAbs(s) == RSum([i \in DOMAIN s |-> IF RIsFinite(s[i]) THEN RAbs(s[i]) ELSE "0"])
AllFin(s) == \A i \in DOMAIN s : RIsFinite(s[i])
NTxt(n) == ToString(n)
MeanOf(s) == RDiv(RSum(s), NTxt(Len(s)))
VarOf(s, ddof) == LET m == MeanOf(s) IN RDiv(RSum([i \in DOMAIN s |-> LET a == RAbs(RSub(s[i], m)) IN RMul(a, a)]), NTxt(Len(s) - ddof))
RECURSIVE Best(_, _, _, _)
Best(s, i, b, up) == IF i > Len(s) THEN b ELSE Best(s, i + 1, IF (IF up THEN RLt(s[b], s[i]) ELSE RLt(s[i], s[b])) THEN i ELSE b, up)
ArgBest(s, up) == IF HasNan(s) THEN CHOOSE i \in DOMAIN s : RIsNan(s[i]) /\ \A j \in 1..(i - 1) : ~RIsNan(s[j]) ELSE Best(s, 1, 1, up)
BestVal(s, up) == s[ArgBest(s, up)]
IntDts == IntDt \cup {"b1"}
RedCell(f, s, e, dt) ==
  LET int == dt \in IntDts
      fs == NoNan(s)
      mx == RMaxAbs(s)
  IN  CASE f = "sum" -> C(RSum(s), SumAbs(s))
        [] f = "nansum" -> C(RSum(fs), SumAbs(fs))
        [] f = "mean" -> IF s = <<>> THEN (IF dt \in {"c16", "c8"} THEN <<"any">> ELSE X("nan")) ELSE C(MeanOf(s), SumAbs(s))
        [] f = "nanmean" -> IF fs = <<>> THEN X("nan") ELSE C(MeanOf(fs), SumAbs(fs))
        [] f \in {"var", "std", "nanstd"} ->
             LET t == IF f = "nanstd" THEN fs ELSE s IN
             IF Len(t) <= e.ddof \/ ~AllFin(t) THEN (IF HasNan(t) THEN X("nan") ELSE <<"any">>)
             ELSE LET v == VarOf(t, e.ddof) IN IF f = "var" THEN C(v, RMul(mx, mx)) ELSE C(RPow(v, "0.5"), mx)
        [] f = "prod" -> LET p == RProd(s) IN IF int /\ ~RLt(RAbs(p), "2147483648") THEN <<"any">> ELSE C(p, p)
        [] f \in {"min", "max"} -> X(BestVal(s, f = "max"))
        [] f \in {"nanmin", "nanmax"} -> IF fs = <<>> THEN X("nan") ELSE X(BestVal(fs, f = "nanmax"))
        [] f = "ptp" -> IF ~AllFin(s) THEN <<"any">> ELSE LET a == BestVal(s, TRUE)
                                                             b == BestVal(s, FALSE) IN C(RSub(a, b), Big(a, b))
        [] f \in {"argmin", "argmax"} -> X(NTxt(ArgBest(s, f = "argmax") - 1))
        [] f \in {"nanargmin", "nanargmax"} ->
             LET b == BestVal(fs, f = "nanargmax") IN X(NTxt((CHOOSE i \in DOMAIN s : s[i] = b /\ \A j \in 1..(i - 1) : s[j] # b) - 1))
RedOps == {"sum", "nansum", "mean", "nanmean", "var", "std", "nanstd", "prod", "min", "max", "nanmin", "nanmax", "ptp",
           "argmin", "argmax", "nanargmin", "nanargmax"}
ArgOps == {"argmin", "argmax", "nanargmin", "nanargmax"}
NeedsElements == {"min", "max", "nanmin", "nanmax", "ptp"} \cup ArgOps
\* the type a reduction is asked to compute in
EffDt(a, e) == IF Has(e, "dtp") /\ e.dtp # "" THEN e.dtp ELSE a.dt
\* numbers that computing in an integer type would cut off
Cut(a, e) == EffDt(a, e) \in IntDts /\ a.dt \notin IntDts /\ \E i \in DOMAIN a.v : ~RIsInt(a.v[i])
DtAsked(x, e) == IF Has(e, "dtp") /\ e.dtp # "" /\ x.err # "must" /\ x.err # "any" THEN [x EXCEPT !.dt = {e.dtp}] ELSE x
RedX(G, a, e) ==
  LET f == e.f
      r == Red(a.sh, AxesOf(e, a.sh))
      grp(o) == [j \in DOMAIN r.pos[o] |-> a.v[r.pos[o][j]]]
      dt == EffDt(a, e)
      whole == Has(e, "dtp") /\ e.dtp \in IntDts      \* results are whole numbers
      val == [o \in DOMAIN r.pos |-> IF Cut(a, e) \/ (whole /\ f \in {"mean", "nanmean", "var", "std", "nanstd"}) THEN <<"any">> ELSE RedCell(f, grp(o), e, dt)]
      d == CASE f = "var" -> DPow(DOf(a), "2") [] f = "prod" -> DPow(DOf(a), NTxt(r.n)) [] OTHER -> DOf(a)
      rel == IF dt \in IntDts /\ f \in {"sum", "prod", "min", "max", "ptp"} THEN "0" ELSE IF {a.dt, dt} \cap LowDt # {} THEN "2e-5" ELSE "1e-11"
      empty == N(a) = 0 /\ f \in NeedsElements
  IN  IF ~AxesOK(e, a.sh) THEN EMust("")
      ELSE IF Len(e.ax) > 1 /\ f \in ArgOps \cup {"prod"} THEN [err |-> "any"]   \* not offered
      ELSE IF empty THEN (IF r.n = 0 THEN EMust("ValueError") ELSE [err |-> "any"])
      ELSE IF f \in {"nanargmin", "nanargmax"} /\ \E o \in DOMAIN r.pos : NoNan(grp(o)) = <<>> THEN EMust("ValueError")
      ELSE IF f \in ArgOps THEN EA(r.sh, val, "0")
      ELSE DtAsked(EQ(d, r.sh, val, rel), e)

\* --- scans ------------------------------------------------------------------------
ScanOps == {"cumsum", "cumprod"}
ScanX(G, a, e) ==
  LET flat == e.ax = <<>>
      sh == IF flat THEN <<N(a)>> ELSE a.sh
      ax == IF flat THEN 1 ELSE NormAxis(e.ax[1], Len(sh))
      line(p) == LET j == Coord(sh, p, ax) IN [i \in 1..(j + 1) |-> a.v[Rav(sh, [Unrav(sh, p) EXCEPT ![ax] = i - 1]) + 1]]
      dt == EffDt(a, e)
      cell(s) == IF Cut(a, e) THEN <<"any">> ELSE IF e.f = "cumsum" THEN C(RSum(s), SumAbs(s))
                 ELSE LET p == RProd(s) IN IF dt \in IntDts /\ ~RLt(RAbs(p), "2147483648") THEN <<"any">> ELSE C(p, p)
      ret == DtAsked(EQ(DOf(a), sh, [p \in 1..Size(sh) |-> cell(line(p - 1))], IF {a.dt, dt} \cap LowDt # {} THEN "2e-5" ELSE "1e-11"), e)
  IN  IF ~AxesOK(e, a.sh) THEN EMust("")
      ELSE IF e.f = "cumprod" /\ ~Compat(G, DOf(a), DOne) THEN EMust("ValueError")
      ELSE IF e.f = "cumprod" /\ ~DNull(DOf(a)) THEN EMust("")          \* powers of a scaled unit would differ along the axis
      ELSE ret

Iota(n) == [i \in 1..n |-> i - 1]
PermMap(sh, perm) ==     \* perm: 0-based axes
  LET osh == [i \in DOMAIN sh |-> sh[perm[i] + 1]]
      at(o) == Rav(sh, [d \in DOMAIN sh |-> Coord(osh, o, CHOOSE i \in DOMAIN perm : perm[i] + 1 = d)])
  IN  [sh |-> osh, ix |-> [o \in 1..Size(osh) |-> at(o - 1)]]

\* --- trace, diagonal: the first two axes -------------------------------------------
DiagLen(sh, off) == LET n == IF off >= 0 THEN sh[1] ELSE sh[1] + off
                        m == IF off >= 0 THEN sh[2] - off ELSE sh[2]
                        l == IF n < m THEN n ELSE m
                    IN  IF l < 0 THEN 0 ELSE l
DiagAt(sh, off, j, rest) == Rav(sh, <<IF off >= 0 THEN j ELSE j - off, IF off >= 0 THEN j + off ELSE j>> \o rest)
RestSh(sh) == SubSeq(sh, 3, Len(sh))
\* bring the two given axes to the front
Front(sh, dax) == LET i == NormAxis(dax[1], Len(sh))
                      j == NormAxis(dax[2], Len(sh))
                  IN  <<i - 1, j - 1>> \o SelectSeq([k \in DOMAIN sh |-> k - 1], LAMBDA k : k + 1 \notin {i, j})
DAxOK(e, sh) == ~Has(e, "dax") \/ e.dax = <<>> \/ AxesOK([e EXCEPT !.ax = e.dax], sh)
Fronted(a, e) == IF ~Has(e, "dax") \/ e.dax = <<>> \/ Len(a.sh) < 2 \/ ~DAxOK(e, a.sh) THEN a
                 ELSE LET m == PermMap(a.sh, Front(a.sh, e.dax)) IN [a EXCEPT !.sh = m.sh, !.v = [i \in DOMAIN m.ix |-> a.v[m.ix[i] + 1]]]
TraceX(G, a0, e) ==
  LET a == Fronted(a0, e)
      rs == RestSh(a.sh)
      dt == EffDt(a, e)
      grp(o) == [j \in 1..DiagLen(a.sh, e.off) |-> a.v[DiagAt(a.sh, e.off, j - 1, Unrav(rs, o)) + 1]]
  IN  IF Len(a.sh) < 2 THEN EMust("ValueError")
      ELSE IF ~DAxOK(e, a0.sh) THEN EMust("")
      ELSE DtAsked(EQ(DOf(a), rs, [o \in 1..Size(rs) |-> IF Cut(a, e) THEN <<"any">> ELSE C(RSum(grp(o - 1)), SumAbs(grp(o - 1)))],
                      IF {a.dt, dt} \cap LowDt # {} THEN "2e-5" ELSE "1e-11"), e)

\* --- rounding and limits -----------------------------------------------------------
P10(n) == RPow("10", NTxt(n))
RoundCell(x, n, dt) ==
  IF ~RIsFinite(x) THEN X(x)
  ELSE LET k == P10(n)
           y == RMul(x, k)
           h == RSub(RAbs(RSub(y, RTrunc(y))), "0.5")
           near == ~RLt("1e-9", RAbs(h)) /\ dt \notin IntDts
           tie == RLe(RAbs(h), "0") /\ n = 0
       IN  IF dt \in IntDts /\ n >= 0 THEN X(x)
           ELSE IF near /\ ~tie THEN <<"set", <<RDiv(RFloor(y), k), RDiv(RCeil(y), k)>>>>
           ELSE C(RDiv(RRint(y), k), RDiv(RRint(y), k))
RoundX(G, a, e) == EQ(DOf(a), a.sh, [i \in DOMAIN a.v |-> RoundCell(a.v[i], e.dec, a.dt)], IF a.dt \in LowDt THEN "1e-5" ELSE "1e-12")

NoLim(x) == x.k = "Z"
LimD(x) == IF NoLim(x) THEN DOne ELSE DOf(x)
ClipX(G, a, e, lo, hi) ==
  LET d == DOf(a)
      given == {x \in {lo, hi} : ~NoLim(x)}
      shl == IF NoLim(lo) THEN <<>> ELSE lo.sh
      shh == IF NoLim(hi) THEN <<>> ELSE hi.sh
      out == BShape(BShape(a.sh, shl), shh)
      at(x, p, dflt) == IF NoLim(x) THEN dflt ELSE RMul(BGet(x, out, p), Conv(G, DOf(x), d))
      cell(p) == LET x == BGet(a, out, p)
                     l == at(lo, p, "-inf")
                     h == at(hi, p, "inf")
                     w == RMin(RMax(x, l), h)
                 IN  C(w, w)
      dts == {a.dt} \cup {x.dt : x \in given}
      ret == EQ(d, out, [p \in 1..Size(out) |-> cell(p - 1)], RelOf(dts))
      bare == ~DNull(d) /\ \E x \in given : ~IsQ(x)     \* a plain number as limit of a quantity with (dimensionless) units
  IN  IF given = {} THEN EMust("ValueError")
      ELSE IF \E x \in given : ~Compat(G, DOf(x), d) THEN EMust("ValueError")
      ELSE IF out = NoShape THEN EMust("")
      ELSE IF bare THEN EMay(ret) ELSE ret

\* --- searching ---------------------------------------------------------------------
SearchX(G, a, e, y) ==
  LET f == Conv(G, DOf(y), DOf(a))
      same == DEq(DOf(y), DOf(a))
      cnt(v) == Cardinality({i \in DOMAIN a.v : IF e.side = "left" THEN RLt(a.v[i], v) ELSE RLe(a.v[i], v)})
      cell(v) == X(NTxt(cnt(RMul(v, f))))
      ret == EA(y.sh, [i \in DOMAIN y.v |-> IF same THEN cell(y.v[i]) ELSE <<"any">>], "0")
  IN  IF ~Compat(G, DOf(y), DOf(a)) THEN EMust("ValueError")
      ELSE IF ~same THEN EMay([ret EXCEPT !.val = [i \in DOMAIN y.v |-> cell(y.v[i])]]) ELSE ret
ArgsortChk(r, a, e) ==
  LET sh == IF e.ax = <<>> THEN <<N(a)>> ELSE a.sh
      ax == IF e.ax = <<>> THEN 1 ELSE NormAxis(e.ax[1], Len(sh))
      lines == Red(sh, {ax})
  IN  IF ~AxesOK(e, a.sh) THEN Judge(r, EMust(""))
      ELSE IF r.k = "E" THEN {"refused"} ELSE IF ~IsPlain(r) THEN {"kind"} ELSE IF r.sh # sh THEN {"shape"}
      ELSE Clause("value", \A o \in DOMAIN lines.pos :
             LET v == [j \in DOMAIN lines.pos[o] |-> a.v[lines.pos[o][j]]]
                 ix == [j \in DOMAIN lines.pos[o] |-> r.v[lines.pos[o][j]]]
             IN  /\ {ix[j] : j \in DOMAIN ix} = {NTxt(j - 1) : j \in DOMAIN ix}
                 /\ \A j \in 1..(Len(ix) - 1) :
                      LET at(t) == v[CHOOSE q \in DOMAIN v : NTxt(q - 1) = t]
                      IN  RLe(at(ix[j]), at(ix[j + 1])) \/ RIsNan(at(ix[j + 1])))
\* a row in increasing order, nan last
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>> ELSE IF RIsNan(s[1]) \/ RLt(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE LET t == Sorted(Tail(s)) IN IF RIsNan(s[1]) THEN Append(t, s[1]) ELSE Ins(t, s[1])
SortVals(a, axis) ==     \* axis as NumPy counts
  LET lines == Red(a.sh, {NormAxis(axis, Len(a.sh))})
      line(o) == Sorted([j \in DOMAIN lines.pos[o] |-> a.v[lines.pos[o][j]]])
  IN  [p \in DOMAIN a.v |-> LET o == CHOOSE o \in DOMAIN lines.pos : \E j \in DOMAIN lines.pos[o] : lines.pos[o][j] = p
                                j == CHOOSE j \in DOMAIN lines.pos[o] : lines.pos[o][j] = p
                            IN line(o)[j]]
NpSortX(a, e) ==
  LET b == IF e.ax = <<>> THEN [a EXCEPT !.sh = <<N(a)>>] ELSE a
      sv == SortVals(b, IF e.ax = <<>> THEN 0 ELSE e.ax[1])
  IN  IF ~AxesOK(e, a.sh) THEN EMust("") ELSE EQ(DOf(a), b.sh, [i \in DOMAIN b.v |-> X(sv[i])], "0")
NonzeroChk(r, a) ==
  LET nz == SelectSeq([i \in DOMAIN a.v |-> i], LAMBDA i : ~REq(a.v[i], "0"))
  IN  IF r.k # "L" THEN {"kind"}
      ELSE Clause("value", Len(r.l) = Len(a.sh) /\ \A d \in DOMAIN r.l :
             /\ IsPlain(r.l[d]) /\ r.l[d].v = [j \in DOMAIN nz |-> NTxt(Coord(a.sh, nz[j] - 1, d))])

\* --- rearrangements: [sh, ix] index maps ---------------------------------------------
Swap(n, i, j) == [k \in 1..n |-> IF k = i THEN j - 1 ELSE IF k = j THEN i - 1 ELSE k - 1]
TakeMap(sh, ind, ish, ax) ==
  LET pre == SubSeq(sh, 1, ax - 1)
      post == SubSeq(sh, ax + 1, Len(sh))
      osh == pre \o ish \o post
      at(o) == LET c == Unrav(osh, o)
                   j == ind[Rav(ish, SubSeq(c, ax, ax + Len(ish) - 1)) + 1]
                   jj == IF j < 0 THEN j + sh[ax] ELSE j
               IN  Rav(sh, SubSeq(c, 1, ax - 1) \o <<jj>> \o SubSeq(c, ax + Len(ish), Len(c)))
  IN  [sh |-> osh, ix |-> [o \in 1..Size(osh) |-> at(o - 1)]]
RepMap(sh, n, ax) ==
  LET osh == [sh EXCEPT ![ax] = @ * n]
      at(o) == Rav(sh, [d \in DOMAIN sh |-> IF d = ax THEN Coord(osh, o, d) \div n ELSE Coord(osh, o, d)])
  IN  [sh |-> osh, ix |-> [o \in 1..Size(osh) |-> at(o - 1)]]
DiagMap(sh, off) ==
  LET rs == RestSh(sh)
      n == DiagLen(sh, off)
      osh == rs \o <<n>>
      at(o) == LET c == Unrav(osh, o) IN DiagAt(sh, off, c[Len(c)], SubSeq(c, 1, Len(c) - 1))
  IN  [sh |-> osh, ix |-> [o \in 1..Size(osh) |-> at(o - 1)]]
MoveOps == {"reshape", "ravel", "flatten", "T", "transpose", "swapaxes", "squeeze", "take", "repeat", "diagonal"}
BadMap == [sh |-> NoShape, ix |-> <<>>]
MoveMap(f, sh, e) ==
  LET n == Len(sh)
      sz == Size(sh)
  IN  CASE f = "reshape" -> IF Size(e.sh2) = sz THEN [sh |-> e.sh2, ix |-> Iota(sz)] ELSE BadMap
        [] f \in {"ravel", "flatten"} -> [sh |-> <<sz>>, ix |-> Iota(sz)]
        [] f = "T" -> PermMap(sh, [i \in 1..n |-> n - i])
        [] f = "transpose" -> IF Len(e.perm) = n /\ {e.perm[i] : i \in DOMAIN e.perm} = {i - 1 : i \in 1..n} THEN PermMap(sh, e.perm) ELSE BadMap
        [] f = "swapaxes" -> IF AxesOK([e EXCEPT !.ax = <<e.ax[1]>>], sh) /\ AxesOK([e EXCEPT !.ax = <<e.ax[2]>>], sh)
                             THEN PermMap(sh, Swap(n, NormAxis(e.ax[1], n), NormAxis(e.ax[2], n))) ELSE BadMap
        [] f = "squeeze" -> IF e.ax = <<>> THEN [sh |-> SelectSeq(sh, LAMBDA s : s # 1), ix |-> Iota(sz)]
                            ELSE IF AxesOK(e, sh) /\ sh[NormAxis(e.ax[1], n)] = 1 THEN [sh |-> DropAxis(sh, NormAxis(e.ax[1], n)), ix |-> Iota(sz)] ELSE BadMap
        [] f = "take" -> LET s == IF e.ax = <<>> THEN <<sz>> ELSE sh
                             ax == IF e.ax = <<>> THEN 1 ELSE NormAxis(e.ax[1], n)
                         IN  IF ~AxesOK(e, sh) THEN BadMap
                             ELSE IF \E i \in DOMAIN e.ind : e.ind[i] < -s[ax] \/ e.ind[i] >= s[ax] THEN BadMap
                             ELSE TakeMap(s, e.ind, e.ish, ax)
        [] f = "repeat" -> IF ~AxesOK(e, sh) THEN BadMap
                           ELSE LET s == IF e.ax = <<>> THEN <<sz>> ELSE sh IN RepMap(s, e.n, IF e.ax = <<>> THEN 1 ELSE NormAxis(e.ax[1], n))
        [] f = "diagonal" -> IF n < 2 \/ ~DAxOK(e, sh) THEN BadMap
                             ELSE IF ~Has(e, "dax") \/ e.dax = <<>> THEN DiagMap(sh, e.off)
                             ELSE LET m == PermMap(sh, Front(sh, e.dax))
                                      d == DiagMap(m.sh, e.off)
                                  IN  [sh |-> d.sh, ix |-> [i \in DOMAIN d.ix |-> m.ix[d.ix[i] + 1]]]
MoveX(G, a, e) ==
  LET m == MoveMap(e.f, a.sh, e)
  IN  IF m = BadMap THEN EMust("") ELSE EDt(EQ(DOf(a), m.sh, [o \in DOMAIN m.ix |-> X(a.v[m.ix[o] + 1])], "0"), {a.dt})

\* --- one call ----------------------------------------------------------------------
MethX(G, e) ==
  LET a == e.a[1] IN
  CASE e.f \in RedOps -> RedX(G, a, e)
    [] e.f \in ScanOps -> ScanX(G, a, e)
    [] e.f = "trace" -> TraceX(G, a, e)
    [] e.f = "round" -> RoundX(G, a, e)
    [] e.f = "clip" -> ClipX(G, a, e, e.a[2], e.a[3])
    [] e.f = "searchsorted" -> SearchX(G, a, e, e.a[2])
    [] e.f = "npsort" -> NpSortX(a, e)
    [] e.f \in MoveOps -> MoveX(G, a, e)
MethChk(G, e) ==
  LET a == e.a[1] IN
  IF e.f = "argsort" THEN ArgsortChk(e.r, a, e) \cup Untouched(e)
  ELSE IF e.f = "nonzero" THEN NonzeroChk(e.r, a) \cup Untouched(e)
  ELSE LET x == MethX(G, e) IN
  IF ~Has(e, "out") THEN JudgeAny(e.r, x) \cup Untouched(e) \cup (IF e.f \in (MoveOps \ {"take", "flatten", "repeat"}) \cup {"round"} THEN {} ELSE Fresh(e))
  ELSE LET o == e.out
           lossy == o.dt \in IntDts
           fits == x.err # "must" /\ x.err # "any" /\ x.sh = o.sh
           ret == [x EXCEPT !.k = "Q", !.t = {o.t}, !.dt = {o.dt}]
           plainidx == e.f \in ArgOps
       IN  IF x.err = "any" THEN {}
           ELSE IF x.err = "must" THEN Judge(e.r, IF o.k # "Q" THEN EMust("") ELSE x) \cup Clause("output-changed", e.opost = e.out) \cup Untouched(e)
           ELSE IF e.f = "clip" /\ x.sh # o.sh THEN {}           \* NumPy broadcasts the result into a larger output
           ELSE IF o.k # "Q" /\ e.f = "cumprod" THEN {}
           ELSE IF o.k # "Q" /\ ~plainidx THEN Judge(e.r, EMust("")) \cup Clause("output-changed", e.opost = e.out) \cup Untouched(e)
           ELSE IF ~fits THEN Judge(e.r, EMust("")) \cup Clause("output-changed", e.opost = e.out) \cup Untouched(e)
           ELSE IF e.r.k = "E" THEN (IF lossy \/ x.err = "may" THEN {} ELSE {"refused"}) \cup Clause("output-changed", e.opost = e.out) \cup Untouched(e)
           ELSE IF lossy THEN {}
           ELSE Clause("output-identity", e.is) \cup JudgeRet(e.r, ret) \cup Clause("output", e.opost = e.r) \cup Untouched(e)
==============================================================================
