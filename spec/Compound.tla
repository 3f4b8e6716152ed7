------------------------------- MODULE Compound --------------------------------
(* Compound units (C22): a unit "cmp:<text>" worth exactly what its text denotes,
   which stands in signatures as one factor of its own.

   cmp "new"    a: <<text>>, r: the unit, info: what it says about itself, cp: copies
                and pickles of it, regdiff: labels of the registry which changed
   cmp "pair"   a: <<text, text>>, r: what the two units do with each other
   cmp "chain"  units built up and taken apart again: steps on a magnitude and a
                signature, rs: the state after each step                           *)
EXTENDS Func

\* every compound unit of d replaced by its expression
RECURSIVE ExpandOver(_, _, _)
ExpandOver(G, d, ks) ==
  IF ks = {} THEN DOne
  ELSE LET k == CHOOSE x \in ks : TRUE
           u == IF IsCmp(k) THEN Evaluate(LabD(G), CmpText(k)).d ELSE DUnit(k)
       IN  DMul(DPow(u, d[k]), ExpandOver(G, d, ks \ {k}))
Expand(G, d) == ExpandOver(G, d, DOMAIN d)
\* the number all texts of d contribute
RECURSIVE ScaleOver(_, _, _)
ScaleOver(G, d, ks) ==
  IF ks = {} THEN "1"
  ELSE LET k == CHOOSE x \in ks : TRUE
           s == IF IsCmp(k) THEN Evaluate(LabD(G), CmpText(k)).s ELSE "1"
       IN  RMul(RPow(s, d[k]), ScaleOver(G, d, ks \ {k}))
CmpScale(G, d) == ScaleOver(G, d, DOMAIN d)

CKey(s) == "cmp:" \o s
CUnitQ(s) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> << <<CKey(s), "1">> >>, v |-> <<"1">>]
SameUnit(x, s) == x.k = "Q" /\ x.t = "U" /\ x.v = <<"1">> /\ x.sh = <<>> /\ x.d = << <<CKey(s), "1">> >>

NewChk(G, e) ==
  LET s == e.a[1].s
      ev == Evaluate(LabD(G), s)
      i == e.info
      one == DUnit(CKey(s))
      sd == Simp(G, one)
  IN  Clause("registry-changed", e.regdiff = <<>>) \cup
      (IF ev.st = "rej" THEN Clause("not-refused", e.r.k = "E")
       ELSE IF e.r.k = "E" THEN (IF ev.st = "ok" /\ ~ev.num THEN {"refused"} ELSE {})
       ELSE IF ev.st # "ok" THEN {}
       ELSE Clause("unit", SameUnit(e.r, s) /\ i.name = "(" \o s \o ")" /\ i.symbol = i.name /\ i.usymbol = i.name)
            \cup Clause("text", i.repr = "1 (" \o s \o ")" /\ i.str = i.repr /\ i.dstr = "(" \o s \o ")")
            \cup Clause("definition", i.def.k = "Q" /\ i.def.sh = <<>> /\ RClose(i.def.v[1], ev.s, "1e-13") /\ DEq(DOf(i.def), ev.d))
            \cup Clause("simplified", i.simp.k = "Q" /\ DEq(DOf(i.simp), sd)
                        /\ RClose(i.simp.v[1], RDiv(UFac(G, CKey(s)), DFac(G, sd)), "1e-11"))
            \cup Clause("copy", \A j \in DOMAIN e.cp : LET c == e.cp[j] IN
                          IF c.b.k = "E" THEN FALSE
                          ELSE SameUnit(c.b, s) /\ c.eq /\ c.hash /\ c.deq /\ c.quot = <<>> /\ c.order /\ DEq(DFromSeq(c.prod), DPow(one, "2"))))

PairChk(G, e) ==
  LET s == e.a[1].s
      t == e.a[2].s
      x == e.r
      ds == DUnit(CKey(s))
      dt == DUnit(CKey(t))
  IN  IF x.k = "E" THEN {"refused"}
      ELSE Clause("quotient", DEq(DFromSeq(x.quot), DDiv(ds, dt)))
           \cup Clause("product", DEq(DFromSeq(x.prod), DMul(ds, dt)))
           \cup Clause("equal", x.deq = (s = t) /\ x.one = (s = t))
           \cup Clause("same-hash", s = t => x.hash)

\* magnitude and signature after each step
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(v, d, steps, i) ==
  IF i > Len(steps) THEN <<>>
  ELSE LET p == steps[i]
           n == CASE p.f = "mul" -> <<RMul(v, p.x.v[1]), DMul(d, DOf(p.x))>>
                  [] p.f = "div" -> <<RDiv(v, p.x.v[1]), DDiv(d, DOf(p.x))>>
                  [] p.f = "pow" -> <<RPow(v, p.p), DPow(d, p.p)>>
                  [] p.f = "rescale" -> <<v, DOf(p.x)>>
       IN  <<n>> \o ChainFrom(n[1], n[2], steps, i + 1)
ChainChk(G, e) ==
  LET w == ChainFrom(e.a[1].v[1], DOf(e.a[1]), e.steps, 1)
  IN  IF e.r.k = "E" THEN {"refused"}
      ELSE Clause("signature", \A i \in DOMAIN w : DWell(e.rs[i].d) /\ DEq(DOf(e.rs[i]), w[i][2]) /\ DEq(DFromSeq(e.ds[i]), w[i][2]))
           \cup Clause("value", \A i \in DOMAIN w : e.rs[i].sh = <<>> /\ RClose(e.rs[i].v[1], w[i][1], "1e-11"))
           \cup (LET d == w[Len(w)][2]
                     sd == Simp(G, d)
                     f == RDiv(DFac(G, d), DFac(G, sd))
                 IN  Clause("simplified", e.simp.k = "Q" /\ DEq(DOf(e.simp), sd) /\ RClose(e.simp.v[1], RMul(w[Len(w)][1], f), "1e-10"))
                     \cup Clause("expanded", e.exp.k = "Q" /\ DEq(DOf(e.exp), Expand(G, d))
                                 /\ RClose(e.exp.v[1], RMul(w[Len(w)][1], CmpScale(G, d)), "1e-10")))

CmpUnitChk(G, e) ==
  CASE e.f = "new" -> NewChk(G, e)
    [] e.f = "pair" -> PairChk(G, e)
    [] e.f = "chain" -> ChainChk(G, e)
==============================================================================
