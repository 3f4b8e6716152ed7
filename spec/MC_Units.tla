------------------------------- MODULE MC_Units ------------------------------
(* Conversion over the whole catalogue: every ordered pair of units and constants
   of equal dimensions is a state.  Invariants: factors are positive rationals
   (except the reversed degrees), round trips are exact, chains through SI agree,
   simplification lands on base units.  Every pair is a case for the library.    *)
EXTENDS Calc

CONSTANTS Tier
Keys == DOMAIN CatFac \ {"dimensionless"}
KeySet(p) == {k \in Keys : CatBas[k] = p}
VARIABLES a, b
vars == <<a, b>>
Q(v, k) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> << <<k, "1">> >>, v |-> <<v>>]
Q2(v, k) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<2>>, d |-> << <<k, "-2">>, <<"volt", "0.5">> >>, v |-> v]
Un(k) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> << <<k, "1">> >>, v |-> <<"1">>]
Emit(x) == PrintT(ToJson(x))
\* constants convert to units, not to each other, in the quick tier
Wanted(x, y) == ~SStarts(x, "const:") /\ (Tier = "thorough" \/ ~SStarts(y, "const:"))
Init == a \in Keys /\ b = ""
Next == /\ b = ""
        /\ a' = a
        /\ b' \in KeySet(CatBas[a])
        /\ IF Wanted(b', a) THEN
             /\ Emit([o |-> "rescale", a |-> <<Q("3.25", a), Un(b')>>])
             /\ IF Tier = "thorough" THEN
                  /\ Emit([o |-> "rescale", a |-> <<Q2(<<"2.5", "-7">>, a), [k |-> "D", d |-> << <<"volt", "0.5">>, <<b', "-2">> >>]>>])
                  /\ IF SStarts(a, "const:") THEN TRUE ELSE Emit([o |-> "eq", a |-> <<Un(a), Un(b')>>])
                ELSE TRUE
           ELSE TRUE
        /\ IF a = b' THEN Emit([o |-> "simplified", a |-> <<Q("0.75", a)>>]) ELSE TRUE
Spec == Init /\ [][Next]_vars

Factor == RIsFinite(CatFac[a]) /\ RSign(CatFac[a]) # 0
\* negative only for the units the catalogue gives a negative definition
Positive == RSign(CatFac[a]) > 0 \/ a \in {"degrees_west"} \/ SStarts(a, "const:")
RoundTrip == b # "" => RMul(Conv(G0, DUnit(a), DUnit(b)), Conv(G0, DUnit(b), DUnit(a))) = "1"
ViaSI == b # "" => LET s == Simp(G0, DUnit(a))
                   IN  REq(RMul(Conv(G0, DUnit(a), s), Conv(G0, s, DUnit(b))), IF a = b THEN "1" ELSE Conv(G0, DUnit(a), DUnit(b)))
SimpIsBase == DOMAIN Simp(G0, DUnit(a)) \subseteq Bases /\ DEq(DBas(G0, Simp(G0, DUnit(a))), CatBas[a])
              /\ REq(DFac(G0, Simp(G0, DUnit(a))), "1")
CompatIsEquivalence == b # "" => Compat(G0, DUnit(a), DUnit(b)) /\ Compat(G0, DUnit(b), DUnit(a))
==============================================================================
