-------------------------------- MODULE Func ---------------------------------
(* The package's own mathematical functions (C18): trigonometry, differences,
   gradients, cross products, trapezoidal integration, unwrapping of phases,
   and functions adapted to quantities by the quantitizer.                    *)
EXTENDS Method

FTrig  == {"sin", "cos", "tan"}
FPlain == {"sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh"}
FArc   == {"arcsin", "arccos", "arctan"}
Fn1 == FTrig \cup FPlain \cup FArc
FnRed == {"sum", "prod", "cumsum", "cumprod", "nansum"}
FnKnown == Fn1 \cup FnRed \cup {"arctan2", "hypot", "diff", "ediff1d", "gradient", "cross", "trapz", "unwrap"}
Pi == "3.14159265358979323846264338327950288"
TwoPi == RMul("2", Pi)

\* a result of plain arguments is plain
AsPlain(x) == IF x.err \in {"must", "any"} THEN x ELSE [x EXCEPT !.k = "A", !.t = {}]
Ret(q, d, sh, val, rel) == IF q THEN ET(EQ(d, sh, val, rel), {"Q"}) ELSE EA(sh, val, rel)
NoArg(x) == x.k = "Z"
DArg(x) == IF NoArg(x) THEN DOne ELSE DOf(x)

\* --- functions of one argument -------------------------------------------------
\* results at the border of the domain depend on the last digit of the conversion
Border(f, x) == f \in {"arcsin", "arccos", "arctanh", "arccosh"} /\ RClose(RAbs(x), "1", "1e-9")
Fn1X(G, f, a) ==
  LET t == IF f \in FTrig THEN RadianD ELSE DOne
      c == Conv(G, DOf(a), t)
      cell(v) == LET x == IF IsQ(a) THEN RMul(v, c) ELSE v
                 IN  IF ~RIsFinite(x) THEN <<"any">>
                     ELSE IF Border(f, x) /\ ~REq(c, "1") THEN <<"any">>
                     ELSE IF a.dt \in LowDt /\ RLt("80", RAbs(x)) THEN <<"any">>      \* overflow of short floats
                     ELSE IF f \in FTrig THEN Fn(f, x) ELSE FnDom(f, x)
  IN  IF IsQ(a) /\ ~Compat(G, DOf(a), t) THEN EMust("ValueError")
      ELSE Ret(IsQ(a), IF f \in FArc THEN RadianD ELSE DOne, a.sh, [i \in DOMAIN a.v |-> cell(a.v[i])], Lo({a.dt}))

\* --- two arguments ---------------------------------------------------------------
Fn2X(G, f, a, b) ==
  LET sh == BShape(a.sh, b.sh)
      c == Conv(G, DOf(b), DOf(a))
      cell(x, y0) == LET y == RMul(y0, c)
                         w == RFun2(f, x, y)
                     IN  IF ~RIsFinite(x) \/ ~RIsFinite(y) \/ ~RIsFinite(w) THEN <<"any">>
                         ELSE IF f = "arctan2" /\ (REq(x, "0") \/ REq(y, "0")) THEN <<"any">>
                         ELSE C(w, IF f = "arctan2" THEN "1" ELSE w)
      ret == ET(EQ(IF f = "arctan2" THEN RadianD ELSE DOf(a), sh, Map2(a, b, cell), Lo({a.dt, b.dt})), {"Q"})
  IN  IF IsQ(a) /\ IsQ(b)
      THEN IF ~Compat(G, DOf(a), DOf(b)) THEN EMust("ValueError")
           ELSE IF sh = NoShape THEN EMust("")
           \* hypot asks for identical units
           ELSE IF f = "hypot" /\ ~DEq(DOf(a), DOf(b)) THEN EMay(ret) ELSE ret
      ELSE IF IsQ(a) \/ IsQ(b) THEN LET x == UfX(G, f, <<a, b>>) IN IF x.err = "no" /\ f = "arctan2" THEN [x EXCEPT !.k = "Q", !.d = DOne] ELSE x
      ELSE IF sh = NoShape THEN EMust("") ELSE AsPlain(ret)

\* --- differences -----------------------------------------------------------------
Line(a, ax, p, j) == a.v[Rav(a.sh, [Unrav(a.sh, p) EXCEPT ![ax] = j]) + 1]
DiffOnce(a, ax) ==
  LET sh == [a.sh EXCEPT ![ax] = IF @ = 0 THEN 0 ELSE @ - 1]
      pos(p, j) == LET c == Unrav(sh, p) IN Rav(a.sh, [c EXCEPT ![ax] = @ + j]) + 1
  IN  [a EXCEPT !.sh = sh, !.v = [p \in 1..Size(sh) |-> RSub(a.v[pos(p - 1, 1)], a.v[pos(p - 1, 0)])]]
RECURSIVE DiffN(_, _, _)
DiffN(a, ax, n) == IF n = 0 THEN a ELSE DiffN(DiffOnce(a, ax), ax, n - 1)
DiffX(G, a, e) ==
  LET ax == NormAxis(e.ax[1], Len(a.sh))
      r == DiffN(a, ax, e.n)
      s == RMaxAbs([i \in DOMAIN a.v |-> IF RIsFinite(a.v[i]) THEN a.v[i] ELSE "0"])
      ret == EQ(DOf(a), r.sh, [i \in DOMAIN r.v |-> C(r.v[i], s)], IF a.dt \in IntDt THEN "0" ELSE IF a.dt \in LowDt THEN "1e-5" ELSE "1e-12")
  IN  IF e.n = 0 THEN [err |-> "any"]
      ELSE IF a.sh = <<>> \/ ~AxisOK(e.ax[1], Len(a.sh)) THEN EMust("")
      ELSE IF IsQ(a) THEN ET(ret, IF a.t = "X" THEN {"X"} ELSE {"Q"}) ELSE AsPlain(ret)

EdiffX(G, a, e, to, from) ==        \* to_end, to_begin
  LET q == IsQ(a) \/ IsQ(to) \/ IsQ(from)
      d == DOf(a)
      ends == {x \in {to, from} : ~NoArg(x)}
      mid == [i \in 1..(IF N(a) = 0 THEN 0 ELSE N(a) - 1) |-> C(RSub(a.v[i + 1], a.v[i]), Big(a.v[i], a.v[i + 1]))]
      end(x) == IF NoArg(x) THEN <<>> ELSE LET c == Conv(G, DOf(x), d) IN [i \in DOMAIN x.v |-> LET w == RMul(x.v[i], c) IN C(w, w)]
      val == end(from) \o mid \o end(to)
      ret == Ret(q, d, <<Len(val)>>, val, IF a.dt \in LowDt THEN "1e-5" ELSE "1e-11")
  IN  IF \E x \in ends : IsQ(x) /\ ~Compat(G, DOf(x), d) THEN EMust("ValueError")
      ELSE IF \E x \in ends : ~IsQ(x) /\ ~DNull(d) THEN [err |-> "any"]      \* a bare number next to a quantity with units
      ELSE IF \E x \in ends : x.dt # a.dt \/ ~DEq(DOf(x), d) THEN EMay(ret) ELSE ret     \* NumPy may refuse the number kind

\* --- gradient ----------------------------------------------------------------------
Sp(s, n, i) == IF s.sh = <<>> THEN s.v[1] ELSE RSub(s.v[i + 1], s.v[i])       \* spacing between the i-th and the next point (from 1)
GradLine(f, s, n, i) ==     \* f: values along the axis
  IF i = 1 THEN RDiv(RSub(f[2], f[1]), Sp(s, n, 1))
  ELSE IF i = n THEN RDiv(RSub(f[n], f[n - 1]), Sp(s, n, n - 1))
  ELSE LET h == Sp(s, n, i - 1)
           k == Sp(s, n, i)
           hk == RAdd(h, k)
       IN  RAdd(RAdd(RMul(RNeg(RDiv(k, RMul(h, hk))), f[i - 1]), RMul(RDiv(RSub(k, h), RMul(h, k)), f[i])), RMul(RDiv(h, RMul(k, hk)), f[i + 1]))
GradAxis(a, s, ax) ==
  LET n == a.sh[ax]
      m == RMaxAbs(a.v)
      cell(p) == LET c == Unrav(a.sh, p)
                     f == [j \in 1..n |-> a.v[Rav(a.sh, [c EXCEPT ![ax] = j - 1]) + 1]]
                     w == GradLine(f, s, n, c[ax] + 1)
                     lo == CHOOSE x \in {RAbs(Sp(s, n, j)) : j \in 1..(n - 1)} : \A y \in {RAbs(Sp(s, n, j)) : j \in 1..(n - 1)} : RLe(x, y)
                     hi == RMaxAbs([j \in 1..(n - 1) |-> Sp(s, n, j)])
                 IN  C(w, RMul(RDiv(m, lo), RDiv(hi, lo)))
  IN  [p \in 1..Size(a.sh) |-> cell(p - 1)]
OneSp == [k |-> "N", dt |-> "f8", sh |-> <<>>, v |-> <<"1">>]
GradX(G, as) ==         \* one expectation per axis, or a refusal
  LET a == as[1]
      n == Len(a.sh)
      sp == SubSeq(as, 2, Len(as))
      q == \E i \in DOMAIN as : IsQ(as[i])
      of(ax) == IF sp = <<>> THEN OneSp ELSE IF Len(sp) = 1 THEN sp[1] ELSE sp[ax]
      bad == \/ ~(Len(sp) \in {0, n} \/ (Len(sp) = 1 /\ sp[1].sh = <<>>))
             \/ \E i \in DOMAIN sp : Len(sp[i].sh) > 1 \/ (Len(sp[i].sh) = 1 /\ (sp[i].sh[1] # a.sh[i]))
             \/ \E i \in DOMAIN a.sh : a.sh[i] < 2
  IN  IF bad THEN <<EMust("")>>
      ELSE [ax \in 1..n |-> Ret(q, DDiv(DOf(a), DOf(of(ax))), a.sh, GradAxis(a, of(ax), ax), IF a.dt \in LowDt THEN "1e-4" ELSE "1e-11")]
GradChk(G, e) ==
  LET xs == GradX(G, e.a)
  IN  IF xs[1].err = "must" THEN Judge(e.r, xs[1])
      ELSE IF e.r.k = "E" THEN {"refused"}
      ELSE IF Len(xs) = 1 THEN Judge(e.r, xs[1])
      ELSE IF e.r.k # "L" \/ Len(e.r.l) # Len(xs) THEN {"kind"}
      ELSE UNION {Judge(e.r.l[i], xs[i]) : i \in DOMAIN xs}

\* --- cross product ------------------------------------------------------------------
MoveLast(x, ax) == LET n == Len(x.sh)
                       m == PermMap(x.sh, [i \in 1..n |-> IF i = n THEN ax - 1 ELSE IF i < ax THEN i - 1 ELSE i])
                   IN  [sh |-> m.sh, v |-> [i \in DOMAIN m.ix |-> x.v[m.ix[i] + 1]]]
CrossX(G, a, b, e) ==
  LET na == Len(a.sh)
      nb == Len(b.sh)
      bad0 == na = 0 \/ nb = 0 \/ ~AxisOK(e.cax[1], na) \/ ~AxisOK(e.cax[2], nb)
      A == MoveLast(a, NormAxis(e.cax[1], na))
      B == MoveLast(b, NormAxis(e.cax[2], nb))
      la == A.sh[na]
      lb == B.sh[nb]
      ra == SubSeq(A.sh, 1, na - 1)
      rb == SubSeq(B.sh, 1, nb - 1)
      out == BShape(ra, rb)
      ga(o, i) == IF i > la THEN "0" ELSE A.v[BPos(ra, out, o) * la + i]
      gb(o, i) == IF i > lb THEN "0" ELSE B.v[BPos(rb, out, o) * lb + i]
      det(o, i, j) == LET p == RMul(ga(o, i), gb(o, j))
                          r == RMul(ga(o, j), gb(o, i))
                      IN  C(RSub(p, r), Big(p, r))
      cell(o, i) == CASE i = 1 -> det(o, 2, 3) [] i = 2 -> det(o, 3, 1) [] i = 3 -> det(o, 1, 2)
      n == Len(out) + 1
      c == NormAxis(e.cax[3], n)
      full == [sh |-> Append(out, 3), v |-> [p \in 1..(Size(out) * 3) |-> cell((p - 1) \div 3, ((p - 1) % 3) + 1)]]
      pm == PermMap(full.sh, [i \in 1..n |-> IF i < c THEN i - 1 ELSE IF i = c THEN n - 1 ELSE i - 2])
      q == IsQ(a) \/ IsQ(b)
      d == DMul(DOf(a), DOf(b))
      rel == IF IntOnly(a, b) THEN "0" ELSE Rel2(a, b)
  IN  IF bad0 THEN EMust("")
      ELSE IF ~({la, lb} \subseteq {2, 3}) \/ out = NoShape THEN EMust("")
      ELSE IF la = 2 /\ lb = 2 THEN Ret(q, d, out, [o \in 1..Size(out) |-> cell(o - 1, 3)], rel)
      ELSE IF ~AxisOK(e.cax[3], n) THEN EMust("")
      ELSE Ret(q, d, pm.sh, [i \in DOMAIN pm.ix |-> full.v[pm.ix[i] + 1]], rel)

\* --- trapezoidal rule ----------------------------------------------------------------
TrapzX(G, y, x, dx, e) ==
  LET n == Len(y.sh)
      ax == NormAxis(e.ax[1], n)
      m == y.sh[ax]
      q == IsQ(y) \/ IsQ(x) \/ IsQ(dx)
      r == DropAxis(y.sh, ax)
      at(z, g, j) == z.v[AxisPos(z.sh, ax, g, j) + 1]
      step(g, j) == IF NoArg(x) THEN (IF NoArg(dx) THEN "1" ELSE dx.v[1])
                    ELSE IF Len(x.sh) = 1 THEN RSub(x.v[j + 2], x.v[j + 1]) ELSE RSub(at(x, g, j + 1), at(x, g, j))
      terms(g) == [j \in 1..(IF m = 0 THEN 0 ELSE m - 1) |-> RDiv(RMul(step(g, j - 1), RAdd(at(y, g, j - 1), at(y, g, j))), "2")]
      xs == IF NoArg(x) THEN (IF NoArg(dx) THEN "1" ELSE dx.v[1]) ELSE RMaxAbs(x.v)
      val == [g \in 1..Size(r) |-> C(RSum(terms(g - 1)), RMul(RMul(xs, RMaxAbs(y.v)), NTxt(2 * m + 2)))]
      d == DMul(DOf(y), IF NoArg(x) THEN DArg(dx) ELSE DOf(x))
      low == LowDt \cap {z.dt : z \in {w \in {y, x, dx} : ~NoArg(w)}} # {}
      kind == IF NoArg(x) THEN IsQ(y) \/ IsQ(dx) ELSE IsQ(y) \/ IsQ(x) \/ IsQ(dx)
  IN  IF n = 0 \/ ~AxisOK(e.ax[1], n) THEN EMust("")
      ELSE IF ~NoArg(x) /\ x.sh # y.sh /\ x.sh # <<m>> THEN [err |-> "any"]
      ELSE Ret(kind, d, r, val, IF low THEN "1e-5" ELSE "1e-11")

\* --- phases ---------------------------------------------------------------------------
UnwrapX(G, p, disc, e) ==
  LET n == Len(p.sh)
      ax == NormAxis(e.ax[1], n)
      q == IsQ(p) \/ IsQ(disc)
      c == Conv(G, DOf(p), RadianD)
      dl == IF NoArg(disc) THEN Pi ELSE IF IsQ(disc) THEN RMul(disc.v[1], Conv(G, DOf(disc), RadianD)) ELSE disc.v[1]
      eps == IF p.dt \in LowDt THEN "1e-4" ELSE "1e-9"
      rad(v) == IF q THEN RMul(v, c) ELSE v
      \* turns to take off between two neighbours; "?" when rounding decides
      turn(x, y) == LET dd == RSub(y, x)
                        t == RDiv(RAdd(dd, Pi), TwoPi)
                        k == RFloor(t)
                        edge == RCloseS(t, RRint(t), eps, "1")
                        lim == IF RLt(dl, Pi) THEN Pi ELSE dl
                        small == RLt(RAbs(dd), lim)
                    IN  IF RCloseS(RAbs(dd), dl, eps, "1") /\ RLt(Pi, dl) THEN "?"
                        ELSE IF small /\ RLt(Pi, dl) THEN "0"
                        ELSE IF edge THEN "?" ELSE k
      line(o) == LET cc == Unrav(p.sh, o) IN [j \in 1..(cc[ax] + 1) |-> rad(p.v[Rav(p.sh, [cc EXCEPT ![ax] = j - 1]) + 1])]
      cell(o) == LET l == line(o)
                     ts == [j \in 1..(Len(l) - 1) |-> turn(l[j], l[j + 1])]
                 IN  IF (\E j \in DOMAIN l : ~RIsFinite(l[j])) \/ (\E j \in DOMAIN ts : ts[j] = "?") THEN <<"any">>
                     ELSE LET w == RSub(l[Len(l)], RMul(RSum(ts), TwoPi))
                              s == Big(RMaxAbs(l), TwoPi)
                          IN  IF q THEN C(RDiv(w, c), RDiv(s, c)) ELSE C(w, s)
  IN  IF q /\ (~Compat(G, DOf(p), RadianD) \/ (IsQ(disc) /\ ~Compat(G, DOf(disc), RadianD))) THEN EMust("ValueError")
      ELSE IF n = 0 \/ ~AxisOK(e.ax[1], n) THEN EMust("")
      ELSE Ret(q, DOf(p), p.sh, [o \in 1..Size(p.sh) |-> cell(o - 1)], IF p.dt \in LowDt THEN "1e-4" ELSE "1e-10")

\* --- reductions as functions --------------------------------------------------------
FnRedX(G, a, e) ==
  LET x == IF e.f \in ScanOps THEN ScanX(G, a, e) ELSE RedX(G, a, e)
  IN  IF ~IsQ(a) THEN AsPlain(x)
      ELSE ET(x, IF a.t = "X" /\ e.f \in {"sum"} THEN {"X"} ELSE {"Q"})

\* --- adapted functions -----------------------------------------------------------------
\* e.m: exponents of the arguments in each result; e.h: units of each result (or none: the bare number)
RECURSIVE ProdOver(_, _, _)
ProdOver(G, as, m) == IF as = <<>> THEN "1" ELSE RMul(RPow(RMul(as[1].v[1], IF IsQ(as[1]) THEN Conv(G, DOf(as[1]), Simp(G, DOf(as[1]))) ELSE "1"), m[1]), ProdOver(G, Tail(as), Tail(m)))
QzOne(G, e, r, i) ==
  LET w == ProdOver(G, e.a, e.m[i])
  IN  IF e.h[i].k = "D"
      THEN LET v == RDiv(w, Conv(G, DOf(e.h[i]), Simp(G, DOf(e.h[i])))) IN Judge(r, ET(EQ(DOf(e.h[i]), <<>>, <<C(v, v)>>, "1e-10"), {"Q"}))
      ELSE Judge(r, EA(<<>>, <<C(w, w)>>, "1e-10"))
QzChk(G, e) == IF e.r.k = "E" THEN {"refused"}
               ELSE IF e.r.k # "L" \/ Len(e.r.l) # Len(e.m) THEN {"kind"}
               ELSE UNION {QzOne(G, e, e.r.l[i], i) : i \in DOMAIN e.m}

\* --- one call -----------------------------------------------------------------------------
FuncX(G, e) ==
  LET a == e.a[1] IN
  CASE e.f \in Fn1 -> Fn1X(G, e.f, a)
    [] e.f \in FnRed -> FnRedX(G, a, e)
    [] e.f \in {"arctan2", "hypot"} -> Fn2X(G, e.f, a, e.a[2])
    [] e.f = "diff" -> DiffX(G, a, e)
    [] e.f = "ediff1d" -> EdiffX(G, a, e, e.a[2], e.a[3])
    [] e.f = "cross" -> CrossX(G, a, e.a[2], e)
    [] e.f = "trapz" -> TrapzX(G, a, e.a[2], e.a[3], e)
    [] e.f = "unwrap" -> UnwrapX(G, a, e.a[2], e)
FuncChk(G, e) ==
  Untouched(e) \cup
  (CASE e.f = "quantitizer" -> QzChk(G, e)
     [] e.f = "gradient" -> GradChk(G, e)
     [] OTHER -> LET x == FuncX(G, e) IN
          IF ~Has(e, "out") THEN JudgeAny(e.r, x)
          ELSE IF x.err = "must" THEN Judge(e.r, x) \cup Clause("output-changed", e.opost = e.out)
          ELSE JudgeAny(e.r, x) \cup Clause("output", e.r.k = "E" \/ e.opost.v = e.r.v))
FuncOps == {"func"}
=============================================================================
