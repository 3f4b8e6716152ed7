--------------------------------- MODULE Sig ---------------------------------
(* Signature objects as values (C23).  A program keeps signatures (D), quantities
   (Q) and units (U) and computes with them; the state says what each of them
   denotes.  Signatures are mutable dictionaries: an operation may change its
   target, and nothing else, whatever the objects were made from.

   sg: id -> [k, d]
   e:  t target, s second operand (0: none), p number, ds a signature, u a unit,
       id the name of the new object, all: what every live object reports after     *)
EXTENDS Markup

SgD(sg, i) == sg[i].d
SgMaking == {"new", "unit", "copy", "mul", "div", "add", "sub", "pow", "simplified", "dimq", "mkq", "resc", "qmul", "qdiv", "qpow"}
SgInPlace == {"imul", "idiv", "iadd", "isub", "ipow", "sete", "pop", "clear", "update", "setu", "qimul", "qidiv", "del"}
SgAsking == {"rel", "alien", "txt"}

SgRet(k, d) == [err |-> FALSE, k |-> k, d |-> d]
SgErr == [err |-> TRUE, k |-> "E", d |-> DOne]
SgX(G, sg, e) ==
  LET a == IF e.t = 0 THEN DOne ELSE SgD(sg, e.t)
      b == IF e.s = 0 THEN DOne ELSE SgD(sg, e.s)
      k == IF e.t = 0 THEN "D" ELSE sg[e.t].k
      f == e.f
  IN  CASE f = "new" -> SgRet("D", DFromSeq(e.ds))
        [] f = "unit" -> SgRet("U", DUnit(e.u))
        [] f \in {"copy", "dimq"} -> SgRet("D", a)
        [] f = "simplified" -> SgRet("D", Simp(G, a))
        [] f = "mkq" -> SgRet("Q", a)
        [] f = "resc" -> IF Compat(G, a, b) THEN SgRet("Q", b) ELSE SgErr
        [] f = "setu" -> IF Compat(G, a, b) THEN SgRet("Q", b) ELSE SgErr
        [] f \in {"mul", "imul", "qmul", "qimul"} -> SgRet(k, DMul(a, b))
        [] f \in {"div", "idiv", "qdiv", "qidiv"} -> SgRet(k, DDiv(a, b))
        [] f \in {"pow", "ipow", "qpow"} -> SgRet(k, DPow(a, e.p))
        [] f \in {"add", "sub", "iadd", "isub"} -> IF DEq(a, b) THEN SgRet("D", a) ELSE SgErr
        [] f = "sete" -> SgRet("D", [x \in DOMAIN a \cup {e.u} |-> IF x = e.u THEN e.p ELSE a[x]])
        [] f = "pop" -> IF e.u \in DOMAIN a THEN SgRet("D", [x \in DOMAIN a \ {e.u} |-> a[x]]) ELSE SgErr
        [] f = "clear" -> SgRet("D", DOne)
        [] f = "update" -> SgRet("D", b @@ a)
        [] OTHER -> SgRet(k, a)

SgEntry(all, i) == all[CHOOSE j \in DOMAIN all : all[j][1] = i]
SgStep(G, sg, e) ==
  LET x == TLCEval(SgX(G, sg, e))
      v == [k |-> x.k, d |-> x.d]
  IN  IF x.err THEN sg
      ELSE CASE e.f \in SgMaking -> (e.id :> v) @@ sg
             [] e.f = "del" -> [j \in DOMAIN sg \ {e.t} |-> sg[j]]
             [] e.f \in SgInPlace -> [sg EXCEPT ![e.t] = v]
             [] OTHER -> sg

\* number of base dimensions
SgN(G, d) == DAbsSum(Simp(G, d))
\* what two signatures say about one another
SgRel(G, a, b, r) ==
  LET same == DEq(a, b)
      na == TLCEval(SgN(G, a))
      nb == TLCEval(SgN(G, b))
      near == RCloseS(na, nb, "1e-9", "1")
  IN  Clause("equality", r.eq = same /\ r.eq2 = same /\ r.ne = ~same /\ r.ne2 = ~same)
      \cup Clause("hash", same => r.hash)
      \cup Clause("dictionary", r.isin = same /\ r.set = (IF same THEN 1 ELSE 2))
      \cup (IF near /\ ~REq(na, nb) THEN {}
            ELSE Clause("order", /\ r.lt = RLt(na, nb) /\ r.gt = RLt(nb, na) /\ r.le = ~r.gt /\ r.ge = ~r.lt))
SgTxt(G, a, e) ==
  LET r == e.r IN
  Clause("text", /\ Len(r.repr) = Cardinality(DOMAIN a)
                 /\ \A k \in DOMAIN a : \E j \in DOMAIN r.repr : r.repr[j][1] = NameOf(k) /\ RSame(r.repr[j][2], a[k]))
  \cup Clause("size", r.len = Cardinality(DOMAIN a) /\ r.true = (DOMAIN a # {}))
  \cup Clause("text-repeated", r.again)

\* a logged signature
SgSame(ds, d) == /\ Len(ds) = Cardinality(DOMAIN d)
                 /\ \A k \in DOMAIN d : \E j \in DOMAIN ds : ds[j][1] = k /\ RSame(ds[j][2], d[k])

SgChk(G, sg, e) ==
  LET x == TLCEval(SgX(G, sg, e))
      after == TLCEval(SgStep(G, sg, e))
      seen == {e.all[j][1] : j \in DOMAIN e.all}
  IN  (CASE e.f = "rel" -> IF e.r.k = "E" THEN {"refused"} ELSE SgRel(G, SgD(sg, e.t), SgD(sg, e.s), e.r)
         [] e.f = "txt" -> IF e.r.k = "E" THEN {"refused"} ELSE SgTxt(G, SgD(sg, e.t), e)
         [] e.f = "alien" -> IF e.p = "eq" THEN Clause("equality", (e.r.k = "B" /\ ~e.r.b) \/ (e.r.k = "E" /\ ~e.hashable))
                              ELSE IF e.p = "ne" THEN Clause("equality", (e.r.k = "B" /\ e.r.b) \/ (e.r.k = "E" /\ ~e.hashable))
                              ELSE Clause("not-refused", e.r.k = "E")
         [] x.err -> Clause("not-refused", e.r.k = "E")
         [] e.r.k = "E" -> {"refused"}
         [] OTHER -> {})
      \cup Clause("target-replaced", e.f \notin SgInPlace \/ e.r.k = "E" \/ e.r.same)
      \cup (IF x.err # (e.r.k = "E") /\ e.f \notin SgAsking THEN {}
            ELSE Clause("units", seen = DOMAIN after /\ \A i \in DOMAIN after :
                     LET y == TLCEval(SgEntry(e.all, i)) IN y[2] = after[i].k /\ SgSame(y[3], after[i].d)))
==============================================================================
