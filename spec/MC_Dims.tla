------------------------------- MODULE MC_Dims -------------------------------
(* Signatures form a free abelian group: every pair of signatures over the unit
   keys K with exponents E is a state; the laws are invariants.  Each pair over
   two unit keys is also emitted as cases for the implementation.               *)
EXTENDS Calc

CONSTANTS Tier
K == {"meter", "second", "percent"}
E == IF Tier = "quick" THEN {"-1", "0", "0.5", "2"} ELSE {"-2", "-1", "-0.5", "0", "0.5", "1", "2"}
Norm(f) == [k \in {x \in DOMAIN f : f[x] # "0"} |-> RNorm(f[k])]
Sigs == {Norm(f) : f \in [K -> E]}
P == {"0", "1", "2", "-1", "0.5"}
ToSeq(d) == LET RECURSIVE S(_)
                S(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN <<<<k, d[k]>>>> \o S(ks \ {k})
            IN S(DOMAIN d)
DV(d) == [k |-> "D", d |-> ToSeq(d)]
Num(p) == [k |-> "N", dt |-> IF RIsInt(p) THEN "i8" ELSE "f8", sh |-> <<>>, v |-> <<p>>]

VARIABLES a, b, ph
vars == <<a, b, ph>>
Emit(f, args) == PrintT(ToJson([o |-> "dim", f |-> f, a |-> args]))
\* cases only over two of the keys (the third is exercised by the random drivers)
Small(d) == DOMAIN d \subseteq {"meter", "percent"}
Init == a \in Sigs /\ b = DOne /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ a' = a
        /\ b' \in Sigs
        /\ IF Small(a) /\ Small(b')
           THEN /\ \A f \in {"mul", "div", "imul", "idiv", "eq", "ne", "hasheq", "add", "sub"} : Emit(f, <<DV(a), DV(b')>>)
                /\ IF a = b' THEN \A p \in P : Emit("pow", <<DV(a), Num(p)>>) /\ Emit("ipow", <<DV(a), Num(p)>>) ELSE TRUE
           ELSE TRUE
Spec == Init /\ [][Next]_vars

Closed(d) == \A k \in DOMAIN d : ~RZero(d[k])
Group == /\ DEq(DMul(a, b), DMul(b, a))
         /\ DEq(DMul(a, DOne), a) /\ DNull(DMul(a, DInv(a)))
         /\ DEq(DDiv(a, b), DMul(a, DInv(b)))
         /\ DEq(DDiv(DMul(a, b), b), a)
         /\ Closed(DMul(a, b)) /\ Closed(DDiv(a, b))
         /\ \A c \in {DUnit("meter"), DInv(DUnit("percent")), b} : DEq(DMul(DMul(a, b), c), DMul(a, DMul(b, c)))
PowLaws == /\ \A p \in P : DEq(DPow(DMul(a, b), p), DMul(DPow(a, p), DPow(b, p))) /\ Closed(DPow(a, p))
           /\ \A p, q \in P : DEq(DPow(DPow(a, p), q), DPow(a, RMul(p, q)))
           /\ \A p, q \in P : DEq(DMul(DPow(a, p), DPow(a, q)), DPow(a, RAdd(p, q)))
Equality == DEq(a, b) <=> DNull(DDiv(a, b))
==============================================================================
