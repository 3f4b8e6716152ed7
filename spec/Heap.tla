--------------------------------- MODULE Heap ---------------------------------
(* Objects that share data.  The state keeps buffers of numbers and objects which
   look at them through an index map, each with its own units.  Every operation
   says which cells it writes, whose units it changes, what new object it makes
   and what that object shares; everything else stays as it is (C04 C05 C10 C13).

   h = [b, o]:  b  buffer -> sequence of numbers
                o  object id -> [k, t, dt, sh, d, b, ix, ub, ui, own]
                   own: "own"  its units may be changed
                        "view" a view of another quantity: they may not
                        "may"  NumPy decides (copies made inside reshape)
   event  [o |-> "heap", f, t, a, id, r, al, alu, all, im, ...]
          a operands: literal values or [id |-> n]; id: of the new object       *)
EXTENDS Uncert

H0 == [b |-> <<>>, o |-> <<>>]
At1(s, ix) == [i \in DOMAIN ix |-> s[ix[i] + 1]]
ObjX(o) == o.k = "Q" /\ o.t = "X"
Proj(h, id) ==
  LET o == h.o[id]
      base == [k |-> o.k, t |-> o.t, dt |-> o.dt, sh |-> o.sh, d |-> o.d, v |-> At1(h.b[o.b], o.ix)]
  IN  TLCEval(IF ObjX(o) THEN base @@ [u |-> At1(h.b[o.ub], o.ui), ush |-> o.sh, ud |-> o.d] ELSE base)
Opnd(h, x) == IF Has(x, "id") THEN Proj(h, x.id) ELSE x
Sharers(h, bid, cells) == {j \in DOMAIN h.o : h.o[j].b = bid /\ \E i \in DOMAIN h.o[j].ix : h.o[j].ix[i] \in cells}
Cells(ix) == {ix[i] : i \in DOMAIN ix}

NoMap == [sh |-> NoShape, ix |-> <<>>]
Eff == [x |-> [err |-> "no"], wr |-> <<>>, wu |-> <<>>, rel |-> "0", lab |-> <<>>, new |-> <<>>, sig |-> <<>>,
        share |-> "no", im |-> NoMap, own |-> "own", uf |-> FALSE]
Refuse(cls) == [Eff EXCEPT !.x = EMust(cls)]
Open(w) == w.x.err \in {"any", "open"}
Unsure(w) == IF w.x.err = "no" THEN [w EXCEPT !.x = [err |-> "may"]] ELSE w
NewE(x) == IF x.err \in {"must", "any"} THEN [Eff EXCEPT !.x = x] ELSE [Eff EXCEPT !.x = [err |-> x.err], !.new = <<x>>]
NewU(w) == IF w.x.err \in {"must", "any"} THEN [Eff EXCEPT !.x = w.x]
           ELSE [Eff EXCEPT !.x = [err |-> w.x.err], !.new = <<w.x>>, !.sig = <<w.sig>>]
\* stored in a less precise array
Soft(dt, cells) == IF dt \in LowDt THEN [i \in DOMAIN cells |-> IF cells[i][1] = "e" THEN C(cells[i][2], cells[i][2]) ELSE cells[i]] ELSE cells
Fits(dt, b) == dt \notin IntDt \/ \A i \in DOMAIN b.v : RIsFinite(b.v[i])
WriteAll(cells, rel) == [Eff EXCEPT !.wr = cells, !.rel = rel]

\* --- views and rearrangements ---------------------------------------------------
ShareOf(f) == CASE f \in {"T", "transpose", "swapaxes", "squeeze"} -> "must"
                [] f \in {"reshape", "ravel"} -> "any"
                [] OTHER -> "no"
ViewX(h, e, im, share, k) ==
  LET a == Proj(h, e.t)
      x == EDt(ET(EQ(DOf(a), im.sh, [i \in DOMAIN im.ix |-> X(a.v[im.ix[i] + 1])], "0"), {a.t}), {a.dt})
      isx == a.k = "Q" /\ a.t = "X"
  IN  [Eff EXCEPT !.new = <<IF k = "A" \/ a.k = "A" THEN [x EXCEPT !.k = "A", !.t = {}] ELSE x>>, !.share = share, !.im = im,
                  !.sig = IF isx /\ k # "A" THEN <<At1(a.u, im.ix)>> ELSE <<>>,
                  !.own = IF k = "A" \/ a.k = "A" THEN "own" ELSE IF share = "no" \/ (share = "any" /\ e.al = <<>>) THEN "may" ELSE "view"]

\* --- in-place arithmetic ----------------------------------------------------------
IOps == {"iadd", "isub", "imul", "idiv", "ifdiv", "imod", "ipow"}
IName(f) == CASE f = "iadd" -> "add" [] f = "isub" -> "sub" [] f = "imul" -> "mul" [] f = "idiv" -> "div"
              [] f = "ifdiv" -> "fdiv" [] f = "imod" -> "mod" [] f = "ipow" -> "pow"
IopX(G, h, e) ==
  LET a == Proj(h, e.t)
      b == Opnd(h, e.a[1])
      f == e.f
      own == h.o[e.t].own
      x == BinX(G, IName(f), a, b)
      lab == CASE f = "imul" -> DMul(DOf(a), DOf(b))
               [] f \in {"idiv", "ifdiv"} -> DDiv(DOf(a), DOf(b))
               [] f = "ipow" -> IF N(b) = 0 THEN DOne ELSE DPow(DOf(a), b.v[1])
               [] OTHER -> DOf(a)
      guarded == IF f \in {"imul", "idiv", "ifdiv"} THEN IsQ(b) /\ ~DNull(DOf(b))
                 ELSE f = "ipow" /\ N(b) > 0 /\ Uniform(b) /\ ~REq(b.v[1], "1")
      sig == IF a.t = "X" /\ f # "ifdiv" /\ f # "imod" THEN BinSig(G, IName(f), a, b, DOf(a)) ELSE <<>>
      done == [Eff EXCEPT !.wr = Soft(a.dt, x.val), !.wu = sig, !.rel = IF a.dt \in LowDt THEN "1e-4" ELSE x.rel, !.lab = <<lab>>]
  IN  IF guarded /\ own = "view" THEN (IF f = "ipow" /\ DNull(DOf(a)) THEN Unsure(done) ELSE Refuse("ValueError"))
      ELSE IF x.err = "any" THEN [Eff EXCEPT !.x = [err |-> "any"]]
      ELSE IF x.err = "must" THEN Refuse(IF BShape(a.sh, b.sh) = NoShape \/ a.dt \in IntDt THEN "" ELSE x.cls)
      ELSE IF x.sh # a.sh THEN Refuse("")
      ELSE IF a.dt \in IntDt \/ (guarded /\ own = "may") \/ x.err = "may" THEN Unsure(done)
      ELSE done

\* --- assignment ---------------------------------------------------------------------
RECURSIVE Strip(_, _)
Strip(sh, n) == IF Len(sh) > n /\ sh[1] = 1 THEN Strip(Tail(sh), n) ELSE sh
\* a value stored into an element: what may be lost is left open
StoreCell(w, dt, same) == IF dt \in IntDt \cup {"b1"} THEN (IF same /\ RIsInt(w) THEN X(w) ELSE <<"any">>) ELSE C(w, w)
SetX(G, a, im, b) ==
  LET sb == [b EXCEPT !.sh = Strip(b.sh, Len(im.sh))]
      f == Conv(G, DOf(b), DOf(a))
      same == DEq(DOf(b), DOf(a)) /\ b.dt \in IntDt
      val(j) == RMul(BGet(sb, im.sh, j - 1), f)
      us(j) == RTimes(BUn(sb, im.sh, j - 1), f)
      hits(p) == {j \in DOMAIN im.ix : im.ix[j] + 1 = p}
      tgt == {im.ix[j] + 1 : j \in DOMAIN im.ix}
      \* several values for one element: one of them
      cell(p) == LET js == hits(p) IN IF Cardinality(js) = 1 THEN StoreCell(val(CHOOSE j \in js : TRUE), a.dt, same) ELSE <<"any">>
      ucell(p) == LET js == hits(p) IN IF Cardinality(js) = 1 THEN us(CHOOSE j \in js : TRUE) ELSE SAny
      fits == BShape(sb.sh, im.sh) = im.sh
  IN  IF ~Compat(G, DOf(b), DOf(a)) THEN Refuse(IF im = NoMap \/ ~fits THEN "" ELSE "ValueError")
      ELSE IF im = NoMap THEN Refuse("")
      ELSE IF ~fits THEN (IF im.ix = <<>> THEN [Eff EXCEPT !.x = [err |-> "may"]] ELSE Refuse(""))
      ELSE LET done == [Eff EXCEPT !.wr = [p \in tgt |-> cell(p)], !.rel = RelOf({a.dt, b.dt}),
                       !.wu = IF a.k = "Q" /\ a.t = "X" THEN [p \in tgt |-> ucell(p)] ELSE <<>>]
           IN  IF Len(b.sh) > Len(im.sh) \/ ~Fits(a.dt, b) THEN Unsure(done) ELSE done
PutX(G, a, ind, b, mode) ==
  LET f == Conv(G, DOf(b), DOf(a))
      same == DEq(DOf(b), DOf(a)) /\ b.dt \in IntDt
      n == N(a)
      outside == mode = "raise" /\ \E j \in DOMAIN ind : ind[j] < -n \/ ind[j] >= n
      pos(j) == (CASE mode = "clip" -> IF ind[j] < 0 THEN 0 ELSE IF ind[j] >= n THEN n - 1 ELSE ind[j]
                   [] mode = "wrap" -> ind[j] % n
                   [] OTHER -> IF ind[j] < 0 THEN ind[j] + n ELSE ind[j]) + 1
      last(p) == CHOOSE j \in DOMAIN ind : pos(j) = p /\ \A k \in DOMAIN ind : pos(k) = p => k <= j
      tgt == {pos(j) : j \in DOMAIN ind}
  IN  IF ~Compat(G, DOf(b), DOf(a)) THEN Refuse(IF outside THEN "" ELSE "ValueError")
      ELSE IF outside THEN [Eff EXCEPT !.x = [err |-> "open"]]
      ELSE LET done == [Eff EXCEPT !.wr = [p \in tgt |-> StoreCell(RMul(b.v[((last(p) - 1) % N(b)) + 1], f), a.dt, same)], !.rel = RelOf({a.dt, b.dt})]
           IN  IF Fits(a.dt, b) THEN done ELSE Unsure(done)
FillX(a, own, b) ==
  LET d == IF IsQ(b) THEN DOf(b) ELSE DOf(a)
      done == [Eff EXCEPT !.wr = [p \in DOMAIN a.v |-> StoreCell(b.v[1], a.dt, b.dt \in IntDt)], !.lab = <<d>>, !.rel = RelOf({a.dt, b.dt})]
  IN  IF own = "view" /\ ~DEq(d, DOf(a)) THEN Refuse("")
      ELSE IF b.sh # <<>> \/ ~Fits(a.dt, b) THEN Unsure(done)
      ELSE IF own = "may" /\ ~DEq(d, DOf(a)) THEN Unsure(done) ELSE done
UnitsX(G, a, own, to) ==
  LET tg == Target(G, to)
      f == Conv(G, DOf(a), tg.d)
      done == [Eff EXCEPT !.wr = [p \in DOMAIN a.v |-> LET w == RMul(a.v[p], f) IN C(w, w)], !.rel = RelOf({a.dt}), !.lab = <<tg.d>>,
                          !.wu = IF a.t = "X" THEN [p \in DOMAIN a.v |-> RTimes(a.u[p], f)] ELSE <<>>, !.uf = TRUE]
  IN  IF own = "view" THEN Refuse(IF tg.st = "rej" THEN "" ELSE "ValueError")
      ELSE IF tg.st = "rej" THEN Refuse("")
      ELSE IF tg.st = "may" THEN [Eff EXCEPT !.x = [err |-> "any"]]
      ELSE IF DEq(tg.d, DOf(a)) THEN (IF own = "may" THEN Unsure(Eff) ELSE Eff)
      ELSE IF ~Compat(G, DOf(a), tg.d) THEN Refuse("ValueError")
      ELSE IF tg.st = "mayd" \/ own = "may" \/ a.dt \in IntDt THEN Unsure(done) ELSE done
\* real and imaginary parts; plain numbers are in the units of the target
PartX(G, a, b, im) ==
  LET f == IF IsQ(b) THEN Conv(G, DOf(b), DOf(a)) ELSE "1"
      sb == [b EXCEPT !.sh = Strip(b.sh, Len(a.sh))]
      w(p) == RMul(BGet(sb, a.sh, p - 1), f)
      cell(p) == IF im THEN RMkC(RRe(a.v[p]), w(p)) ELSE IF a.dt \in CplxDt THEN RMkC(w(p), RIm(a.v[p])) ELSE w(p)
  IN  IF IsQ(b) /\ ~Compat(G, DOf(b), DOf(a)) THEN Refuse("")
      ELSE IF im /\ a.dt \notin CplxDt THEN Refuse("")
      ELSE IF BShape(sb.sh, a.sh) # a.sh THEN Refuse("")
      ELSE [Eff EXCEPT !.wr = [p \in DOMAIN a.v |-> IF a.dt \in IntDt THEN <<"any">> ELSE C(cell(p), cell(p))], !.rel = RelOf({a.dt, b.dt})]
SetUncX(G, a, b) ==
  LET f == IF IsQ(b) THEN Conv(G, DOf(b), DOf(a)) ELSE "1"
      plain == ~IsQ(b) /\ ~Compat(G, DOne, DOf(a))
  IN  IF a.sh # b.sh THEN Refuse("ValueError")
      ELSE IF (IsQ(b) /\ ~Compat(G, DOf(b), DOf(a))) \/ plain THEN Refuse("ValueError")
      ELSE [Eff EXCEPT !.wu = [p \in DOMAIN b.v |-> RTimes(b.v[p], IF IsQ(b) THEN f ELSE Conv(G, DOne, DOf(a)))], !.uf = TRUE]
\* results written into an existing quantity
OutX(x, a, own) ==
  LET done == [Eff EXCEPT !.wr = Soft(a.dt, x.val), !.rel = IF a.dt \in LowDt THEN "1e-4" ELSE x.rel, !.lab = <<x.d>>]
  IN  IF x.err = "any" THEN [Eff EXCEPT !.x = [err |-> "any"]]
      ELSE IF x.err = "must" THEN Refuse("")
      ELSE IF x.sh # a.sh THEN Refuse("")
      ELSE IF own = "view" /\ ~DEq(x.d, DOf(a)) THEN Refuse("ValueError")
      ELSE IF a.dt \in IntDt \/ x.err = "may" \/ (own = "may" /\ ~DEq(x.d, DOf(a))) THEN Unsure(done) ELSE done

\* --- one operation --------------------------------------------------------------------
FreshOps == {"copy", "ccopy", "deepcopy", "pickle", "astype"}
HeapX(G, h, e) ==
  LET f == e.f
      a == IF e.t = 0 THEN [k |-> "Z"] ELSE Proj(h, e.t)
      own == IF e.t = 0 THEN "" ELSE h.o[e.t].own
      ops == [i \in DOMAIN e.a |-> Opnd(h, e.a[i])]
      isx == a.k = "Q" /\ a.t = "X"
      un(g) == UncX(G, [e EXCEPT !.f = g, !.a = <<a>> \o ops])
  IN  CASE f = "new" ->
             LET x == ops[1] IN
             IF x.k # "Q" THEN NewE(EDt(EA(x.sh, [i \in DOMAIN x.v |-> X(x.v[i])], "0"), {x.dt}))
             ELSE [NewE(EDt(ET(EQ(DOf(x), x.sh, [i \in DOMAIN x.v |-> X(x.v[i])], "0"), {x.t}), {x.dt})) EXCEPT !.sig = IF x.t = "X" THEN <<x.u>> ELSE <<>>]
        [] f = "wrap" ->     \* Quantity(plain array, units): a quantity looking at the caller's array
             LET x == EDt(ET(EQ(DFromSeq(e.d), a.sh, [i \in DOMAIN a.v |-> X(a.v[i])], "0"), {"Q"}), {a.dt}) IN
             [NewE(x) EXCEPT !.share = "must", !.im = [sh |-> a.sh, ix |-> Iota(N(a))], !.own = IF own = "own" THEN "own" ELSE "may"]
        [] f = "again" ->    \* Quantity(quantity): a view
             [ViewX(h, e, [sh |-> a.sh, ix |-> Iota(N(a))], "must", "Q") EXCEPT !.own = "view"]
        [] f \in {"mag", "real"} -> [ViewX(h, e, [sh |-> a.sh, ix |-> Iota(N(a))], "must", IF f = "mag" THEN "A" ELSE "Q") EXCEPT !.own = "view"]
        [] f \in {"get", "iter"} ->
             IF e.im = NoMap THEN Refuse("IndexError")
             ELSE [ViewX(h, e, e.im, IF f = "iter" THEN "any" ELSE IF e.nsh THEN "must" ELSE "no", "Q") EXCEPT
                     !.own = IF e.al # <<>> THEN "view" ELSE "may"]
        [] f \in MoveOps -> LET m == MoveMap(f, a.sh, e) IN IF m = BadMap THEN Refuse("") ELSE ViewX(h, e, m, ShareOf(f), "Q")
        [] f \in FreshOps ->
             IF isx THEN NewU(un(f))
             ELSE NewE(EDt(ET(IF a.k = "Q" THEN EQ(DOf(a), a.sh, [i \in DOMAIN a.v |-> X(a.v[i])], "0")
                              ELSE EA(a.sh, [i \in DOMAIN a.v |-> X(a.v[i])], "0"), {a.t}), IF f = "astype" THEN {e.dt} ELSE {a.dt}))
        [] f = "rescale" -> IF isx THEN NewU(un(f)) ELSE NewE(Rescale(G, a, ops[1], ""))
        [] f = "simplified" -> IF isx THEN NewU(un(f)) ELSE NewE(Simplified(G, a))
        [] f = "unitsof" -> NewE(ET(EQ(DOf(a), <<>>, <<X("1")>>, "0"), {"Q"}))
        [] f = "bin" -> IF isx \/ (\E i \in DOMAIN ops : IsX(ops[i])) THEN NewU(un(e.op)) ELSE NewE(BinX(G, e.op, a, ops[1]))
        [] f = "un" -> IF isx THEN NewU(un(e.op)) ELSE NewE(UnX(G, e.op, a))
        [] f = "red" -> IF isx THEN NewU(un(e.op)) ELSE NewE(RedX(G, a, [e EXCEPT !.f = e.op]))
        [] f \in IOps -> IopX(G, h, e)
        [] f = "set" -> SetX(G, a, e.im, ops[1])
        [] f = "put" -> PutX(G, a, e.ind, ops[1], IF Has(e, "mode") THEN e.mode ELSE "raise")
        [] f = "fill" -> FillX(a, own, ops[1])
        [] f = "sort" -> IF a.sh = <<>> THEN Refuse("")
                         ELSE LET s == SortVals(a, e.ax[1]) IN [Eff EXCEPT !.wr = [p \in DOMAIN s |-> X(s[p])]]
        [] f = "units" -> UnitsX(G, a, own, ops[1])
        [] f = "setreal" -> PartX(G, a, ops[1], FALSE)
        [] f = "setimag" -> PartX(G, a, ops[1], TRUE)
        [] f = "setunc" -> SetUncX(G, a, ops[1])
        [] f = "ufout" -> OutX(UfX(G, e.op, ops), a, own)
        [] f = "mout" -> LET x == MethX(G, [e EXCEPT !.f = e.op, !.a = ops]) IN OutX(x, a, own)
        [] f = "look" -> Eff
        [] f = "del" -> Eff
HeapOps == {"heap"}
ReturnsTarget == IOps \cup {"ufout", "mout"}

\* --- judging one recorded call ----------------------------------------------------------
\* the logged objects, in the order of their ids
LogOf(e, id) == LET p == CHOOSE p \in DOMAIN e.all : e.all[p].id = id IN e.all[p].x
Logged(e) == {e.all[p].id : p \in DOMAIN e.all}
Frame(o, l) == l.k = o.k /\ l.dt = o.dt /\ l.sh = o.sh /\ (o.k = "Q" => l.t = o.t)
SameLab(o, l) == o.k # "Q" \/ (DWell(l.d) /\ DEq(DFromSeq(l.d), DFromSeq(o.d)))
ULabOK(l) == l.k # "Q" \/ l.t # "X" \/ (l.ush = l.sh /\ DWell(l.ud) /\ DEq(DFromSeq(l.ud), DFromSeq(l.d)))
Same(h, id, l) ==
  LET o == h.o[id]
      p == Proj(h, id)
  IN  Frame(o, l) /\ SameLab(o, l) /\ ULabOK(l) /\ l.v = p.v /\ (ObjX(o) => l.u = p.u)
AllSame(h, e) == \A id \in DOMAIN h.o : id \in Logged(e) /\ Same(h, id, LogOf(e, id))
\* cells of the buffers the target writes to
CellMap(o, w) == [c \in {o.ix[p] : p \in DOMAIN w} |-> w[CHOOSE p \in DOMAIN w : o.ix[p] = c]]
UCellMap(o, w) == [c \in {o.ui[p] : p \in DOMAIN w} |-> w[CHOOSE p \in DOMAIN w : o.ui[p] = c]]
AfterClauses(h, e, w) ==
  LET t == e.t
      wr == TLCEval(IF t = 0 \/ w.wr = <<>> THEN <<>> ELSE CellMap(h.o[t], w.wr))
      wu == TLCEval(IF t = 0 \/ w.wu = <<>> THEN <<>> ELSE UCellMap(h.o[t], w.wu))
      bt == IF t = 0 THEN "" ELSE h.o[t].b
      ut == IF t = 0 THEN "" ELSE IF ObjX(h.o[t]) THEN h.o[t].ub ELSE ""
      one(id) ==
        LET o == h.o[id]
            l == LogOf(e, id)
            p == Proj(h, id)
            self == id = t
            okv(i) == IF o.b = bt /\ o.ix[i] \in DOMAIN wr THEN CellOK(wr[o.ix[i]], l.v[i], w.rel) ELSE l.v[i] = p.v[i]
            oku(i) == IF (self \/ ~w.uf) /\ o.ub = ut /\ o.ui[i] \in DOMAIN wu THEN SigOK(l.u[i], wu[o.ui[i]]) ELSE l.u[i] = p.u[i]
            lab == IF self /\ w.lab # <<>> THEN (o.k # "Q" \/ (DWell(l.d) /\ DEq(DFromSeq(l.d), w.lab[1]))) ELSE SameLab(o, l)
            nm(s) == IF self THEN s ELSE "other-" \o s
        IN  IF ~Frame(o, l) THEN {nm("shape")}
            ELSE Clause(nm("units"), lab) \cup Clause(nm("value"), \A i \in DOMAIN l.v : okv(i))
                 \cup (IF ObjX(o) THEN Clause(nm("uncertainty-units"), ULabOK(l)) \cup
                                       (IF Len(l.u) # Len(l.v) THEN {} ELSE Clause(nm("uncertainty"), \A i \in DOMAIN l.u : oku(i))) ELSE {})
      \* a view left with the units its data had before
      stale == /\ t # 0 /\ w.lab # <<>> /\ ~DEq(w.lab[1], DFromSeq(h.o[t].d))
               /\ \E j \in Sharers(h, bt, Cells(h.o[t].ix)) \ {t} : h.o[j].k = "Q" /\ DEq(DFromSeq(h.o[j].d), DFromSeq(h.o[t].d))
      live == IF e.f = "del" THEN DOMAIN h.o \ {t} ELSE DOMAIN h.o
  IN  IF live # Logged(e) THEN {"lost"}
      ELSE UNION {one(id) : id \in live} \cup (IF stale THEN {"stale-view"} ELSE {})
NewClauses(h, e, w) ==
  IF w.new = <<>> THEN (IF e.f \in ReturnsTarget THEN Clause("identity", e.same) ELSE {})
  ELSE LET r == e.r
           src == IF e.t = 0 THEN <<>> ELSE At1(h.o[e.t].ix, w.im.ix)
           shr == Sharers(h, h.o[e.t].b, Cells(src))
           al == {e.al[i] : i \in DOMAIN e.al}
       IN  JudgeRet(r, w.new[1])
           \cup (IF w.sig = <<>> THEN {} ELSE IF r.k # "Q" \/ r.t # "X" THEN {"uncertainty-lost"}
                 ELSE Clause("uncertainty-units", USound(r))
                      \cup Clause("uncertainty", Len(r.u) # Len(w.sig[1]) \/ \A i \in DOMAIN r.u : SigOK(r.u[i], w.sig[1][i])))
           \cup (CASE w.share = "no" -> Clause("shares-data", al = {} /\ e.alu = <<>>)
                   [] N(r) = 0 -> {}
                   [] w.share = "must" -> Clause("not-a-view", al = shr)
                   [] w.share = "any" -> Clause("shares-data", (al = {} /\ e.alu = <<>>) \/ al = shr))
HeapChk(G, h, e) ==
  LET w == TLCEval(HeapX(G, h, e)) IN
  IF w.x.err = "any" THEN {}
  ELSE IF w.x.err = "open" THEN Clause("not-refused", e.r.k = "E")     \* NumPy stores part of the values before it refuses
  ELSE IF w.x.err = "must"
  THEN Judge(e.r, w.x) \cup Clause("changed-by-refusal", AllSame(h, e))
  ELSE IF e.r.k = "E"
  THEN (IF w.x.err = "may" THEN {} ELSE {"refused"}) \cup Clause("changed-by-refusal", AllSame(h, e))
  ELSE AfterClauses(h, e, w) \cup NewClauses(h, e, w)

\* --- the state after it: the logged values, the sharing of the specification ----------------
RECURSIVE Overlay(_, _, _, _)
Overlay(s, ix, v, i) == IF i > Len(ix) THEN s ELSE Overlay([s EXCEPT ![ix[i] + 1] = v[i]], ix, v, i + 1)
RECURSIVE PutAll(_, _, _)
PutAll(h, e, ids) ==
  IF ids = {} THEN h
  ELSE LET id == CHOOSE i \in ids : TRUE
           o == h.o[id]
           l == LogOf(e, id)
           h1 == [h EXCEPT !.b[o.b] = Overlay(@, o.ix, l.v, 1), !.o[id].d = IF o.k = "Q" THEN l.d ELSE <<>>]
           h2 == IF ObjX(o) /\ Len(l.u) = Len(o.ui) THEN [h1 EXCEPT !.b[o.ub] = Overlay(@, o.ui, l.u, 1)] ELSE h1
       IN  PutAll(h2, e, ids \ {id})
Without(o, id) == [j \in DOMAIN o \ {id} |-> o[j]]
HeapStep(G, h, e) ==
  LET w == TLCEval(HeapX(G, h, e))
      failed == e.r.k = "E"
      \* a target given an uncertainty of its own
      h0 == IF ~failed /\ e.t # 0 /\ ~Open(w) /\ w.uf /\ ObjX(h.o[e.t]) /\ w.wu # <<>>
            THEN LET ub == "w" \o ToString(e.id) IN
                 [h EXCEPT !.o[e.t].ub = ub, !.o[e.t].ui = Iota(Size(h.o[e.t].sh)),
                           !.b = (ub :> LogOf(e, e.t).u) @@ @]
            ELSE h
      h1 == PutAll(h0, e, DOMAIN h.o \ (IF e.f = "del" THEN {e.t} ELSE {}))
      r == e.r
      new == ~failed /\ ~Open(w) /\ w.new # <<>> /\ e.keep
      shared == new /\ e.al # <<>>
      vb == "v" \o ToString(e.id)
      ub == "u" \o ToString(e.id)
      src == IF e.t = 0 THEN <<>> ELSE h1.o[e.t]
      isx == new /\ r.k = "Q" /\ r.t = "X"
      o == [k |-> IF r.k = "N" THEN "A" ELSE r.k, t |-> IF r.k = "Q" THEN r.t ELSE "", dt |-> r.dt, sh |-> r.sh, d |-> IF r.k = "Q" THEN r.d ELSE <<>>,
            b |-> IF shared THEN src.b ELSE vb, ix |-> IF shared THEN At1(src.ix, w.im.ix) ELSE Iota(N(r)),
            ub |-> IF ~isx THEN "" ELSE IF shared THEN src.ub ELSE ub, ui |-> IF ~isx THEN <<>> ELSE IF shared THEN At1(src.ui, w.im.ix) ELSE Iota(N(r)),
            own |-> w.own]
      bufs == IF shared THEN <<>> ELSE (vb :> r.v) @@ (IF isx THEN (ub :> r.u) ELSE <<>>)
  IN  IF e.f = "del" THEN [h EXCEPT !.o = Without(@, e.t)]
      ELSE IF new THEN [b |-> bufs @@ h1.b, o |-> (e.id :> o) @@ h1.o]
      ELSE h1
==============================================================================
