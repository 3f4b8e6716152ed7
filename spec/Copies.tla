------------------------------- MODULE Copies --------------------------------
(* Copies and pickles: the copy has the state of the original, can stand for it in
   every operation, and lives on its own (C10).  Quantities taken apart into nested
   lists and by iteration keep their units (C13).

   dup     a: <<state>>, b: state of the copy, it: how both get on, ids: which leaves
           are one object, a2: the original after the copy was changed, bb: the copy
           before and after the original was changed                               *)
EXTENDS Values

RECURSIVE InterOK(_)
\* seqs: containers
IsLeaf(i) == "text" \in DOMAIN i
InterOK(i) ==
  IF ~IsLeaf(i) THEN \A k \in DOMAIN i.l : InterOK(i.l[k])
  ELSE /\ i.text
       /\ Has(i, "eq") => i.eq /\ i.hash /\ i.quot = <<>>
       /\ Has(i, "ueq") => i.ueq /\ i.cmp /\ i.prod[1] = i.prod[2] /\ i.sum.k = "Q" /\ REq(i.sum.v[1], "2") /\ i.sum.d = i.prod[1].d
DupChk(e) ==
  IF e.r.k = "E" THEN {"refused"}
  ELSE Clause("state", e.b = e.a[1])
       \cup (IF Has(e, "it") THEN Clause("interchangeable", InterOK(e.it)) \cup Clause("identity", e.ids[1] = e.ids[2]) ELSE {})
       \cup (IF Has(e, "al") THEN Clause("shares-data", ~e.al) ELSE {})
       \cup (IF Has(e, "a2") THEN Clause("original-changed", e.a2 = e.a[1]) \cup Clause("copy-changed", e.bb[1] = e.bb[2]) ELSE {})

\* --- nested lists -----------------------------------------------------------------
RECURSIVE NestOK(_, _, _, _)
\* x: logged nesting, sh: remaining shape, at: position of its first element
NestOK(q, x, sh, at) ==
  IF sh = <<>>
  THEN x.k = "Q" /\ x.sh = <<>> /\ DWell(x.d) /\ DEq(DOf(x), DOf(q)) /\ x.v = <<q.v[at]>>
  ELSE x.k = "L" /\ Len(x.l) = sh[1] /\ \A i \in DOMAIN x.l : NestOK(q, x.l[i], Tail(sh), at + (i - 1) * Size(Tail(sh)))
\* one level: parts along the first axis
PartOK(q, x, i) ==
  LET sh == Tail(q.sh) IN
  /\ x.k = "Q" /\ x.sh = sh /\ DWell(x.d) /\ DEq(DOf(x), DOf(q))
  /\ x.v = SubSeq(q.v, i * Size(sh) + 1, (i + 1) * Size(sh))
  /\ q.t = "X" => x.t = "X" /\ x.u = SubSeq(q.u, i * Size(sh) + 1, (i + 1) * Size(sh)) /\ DEq(DFromSeq(x.ud), DOf(q))
ListChk(e) ==
  LET q == e.a[1]
      n == IF q.sh = <<>> THEN 0 ELSE q.sh[1]
  IN  Untouched(e) \cup
      (IF e.f = "tolist" THEN (IF e.r.k = "E" THEN {"refused"} ELSE Clause("value", NestOK(q, e.r, q.sh, 1)))
       ELSE IF q.sh = <<>> THEN Clause("not-refused", e.r.k = "E")
       ELSE IF e.r.k = "E" THEN {"refused"}
       ELSE IF e.f = "len" THEN Clause("value", e.r.k = "N" /\ e.r.v = <<ToString(n)>>)
       ELSE IF e.r.k # "L" \/ Len(e.r.l) # n THEN {"shape"}
       ELSE Clause("value", \A i \in 1..n : PartOK(q, e.r.l[i], IF e.f = "reversed" THEN n - i ELSE i - 1)))
==============================================================================
