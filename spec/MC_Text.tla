------------------------------- MODULE MC_Text -------------------------------
(* Printing and reading are inverse: every unit of the catalogue with every
   exponent of E, alone and with a companion, is a state.                         *)
EXTENDS Markup

CONSTANTS Tier
E == IF Tier = "quick" THEN {"1", "-1", "2", "-0.5", "10"}
     ELSE {"1", "-1", "2", "-2", "3", "-3", "0.5", "-0.5", "1.5", "10", "-12", "21", "100", "0.25", "-0.3333333333333333"}
Comp == {"", "second", "volt", "cmp:m/s**2"}
Keys == DOMAIN Cat \ {"dimensionless"}
VARIABLES k, ds
vars == <<k, ds>>
Init == k \in Keys /\ ds = <<>>
Next == /\ ds = <<>> /\ k' = k
        /\ \E e \in E, c \in Comp, ce \in {"-1", "2"} :
             /\ c # k
             /\ c = "" \/ Tier = "thorough" \/ (e = "1" /\ ce = "-1" /\ (c = "second" \/ CatBas[k] = DOne))
             /\ c \in {"", "second"} \/ e \in {"1", "-0.5"}
             /\ ~SStarts(k, "const:") \/ e \in {"1", "-1", "2"}
             /\ c = "" => ce = "2"
             /\ ds' = IF c = "" THEN << <<k, e>> >> ELSE << <<k, e>>, <<c, ce>> >>
             /\ PrintT(ToJson([o |-> "text", d |-> ds']))
Spec == Init /\ [][Next]_vars
ReadBack == ds # <<>> /\ Nameable(G0, ds) =>
              \A t \in Plain(G0, ds, FALSE) : LET x == UnitText(CatLabD, t) IN x.st = "ok" /\ DEq(x.d, DFromSeq(ds))
\* only these symbols do not name their own unit
Named == ds = <<>> => (k \in DOMAIN CatU => Nameable(G0, << <<k, "1">> >>) \/ k \in {"statampere"})
Injective == ds # <<>> => Cardinality(Plain(G0, ds, FALSE)) = 1 \/ Len(ds) > 1
==============================================================================
