-------------------------------- MODULE Trace --------------------------------
(* Validation of recorded histories.  The log is a sequence of lines; a "begin"
   line starts a history.  Every history is one behaviour of the specification:
   the state st evolves by the logged calls, each line is judged against the
   operation it records, and the failing clauses are reported with their line.  *)
EXTENDS Markup, Sig, Heap, Registry, Copies, Catalog, Construct, Compound

Log == ndJsonDeserialize(IOEnv.VTRACE)
Starts == {i \in DOMAIN Log : Log[i].o = "begin"}

VARIABLES i, st
vars == <<i, st>>

S0 == [h |-> H0, bad |-> FALSE, G |-> G0, pref |-> <<>>, live |-> <<>>, sg |-> DOne]

Verdict(s, e) ==
  IF s.bad /\ s.G # G0 THEN {} ELSE
  CASE e.o = "make" -> {"argument-refused"}          \* an argument could not even be constructed
    [] e.o \in CalcOps -> CalcChk(s.G, e)
    [] e.o \in MarkupOps -> MarkupChk(s.G, e)
    [] e.o = "uf" -> UfChk(s.G, e)
    [] e.o = "meth" -> MethChk(s.G, e)
    [] e.o = "unc" -> UncChk(s.G, e)
    [] e.o = "ufred" -> UfReduceChk(s.G, e)
    [] e.o = "heap" -> IF s.bad THEN {} ELSE HeapChk(s.G, s.h, e)
    [] e.o = "reg" -> IF s.bad THEN {} ELSE RegChk(s, e)
    [] e.o = "sig" -> IF s.bad THEN {} ELSE SgChk(s.G, s.sg, e)
    [] e.o = "dup" -> DupChk(e)
    [] e.o = "tolist" -> ListChk(e)
    [] e.o = "func" -> FuncChk(s.G, e)
    [] e.o = "ctor" -> CtorChk(s.G, e)
    [] e.o = "cmp" -> CmpUnitChk(s.G, e)
    [] e.o = "cat" -> CatChk(e)
    [] e.o = "names" -> NamesChk(e)
    [] e.o = "skip" -> {}
    [] OTHER -> {"unknown-op"}

\* after a mismatch the state is no longer known: the rest of the history is not judged
Step(s, e, v) ==
              IF s.bad THEN s
              ELSE IF e.o = "heap" THEN IF v # {} \/ Open(HeapX(s.G, s.h, e)) THEN [s EXCEPT !.bad = TRUE]
                                        ELSE [s EXCEPT !.h = HeapStep(s.G, s.h, e)]
              ELSE IF e.o = "sig" THEN IF v # {} THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.sg = SgStep(s.G, s.sg, e)]
              ELSE IF e.o = "reg" THEN IF v # {} \/ RegOpen(s, e) THEN [s EXCEPT !.bad = TRUE] ELSE RegStep(s, e)
              ELSE s

Report(n, cl) == IF cl = {} THEN TRUE ELSE PrintT(ToJson([line |-> n, clauses |-> cl]))

Init == i \in Starts /\ st = S0
Next == /\ i < Len(Log)
        /\ i + 1 \notin Starts
        /\ \E e \in {Log[i + 1]} : \E v \in {Verdict(st, e)} :
             /\ Report(i + 1, v)
             /\ st' = Step(st, e, v)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
==============================================================================
