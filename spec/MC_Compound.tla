----------------------------- MODULE MC_Compound ------------------------------
(* Signatures built from units and compound units by products, quotients and
   powers.  Invariants: a compound is one factor of its own (its exponent counts
   the steps which named it, and nothing else changes it), its worth is that of its
   expression, undoing the steps leaves nothing behind, and it is printed in
   parentheses so that the text denotes the expanded units.  Every behaviour is a
   case for the library, as are all texts and all pairs of texts.                  *)
EXTENDS Compound, Markup

CONSTANTS Tier
Texts == {"m/s", "m / s", "m*s**-1", "(m/s)", "m/s**2", "m", "1000*m", "kg*m^2", "ft**0.5", "in", "%", "N.m", "1/cm", "m/m", "V**2/Hz"}
Bad == {"foo", "m/", "m s", "(m", "m)", "m and s", "m[0]", "m.real+", "'m'", "m#", "", "2", "m+m", "m**s", "m=s"}
Atoms == {"meter", "second", "kilometer", CKey("m/s"), CKey("m*s**-1"), CKey("1000*m"), CKey("m/s**2")}
Op == {"mul", "div"}
MaxLen == IF Tier = "quick" THEN 3 ELSE 4
VARIABLES d, steps, cnt, last
vars == <<d, steps, cnt, last>>
UQ(k) == [k |-> "Q", t |-> "U", dt |-> "f8", sh |-> <<>>, d |-> << <<k, "1">> >>, v |-> <<"1">>]
Three == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> [i \in {} |-> i], v |-> <<"3">>]
Cnt0 == [k \in Atoms |-> 0]
Init == d = DOne /\ steps = <<>> /\ cnt = Cnt0 /\ last = ""
Times(k, op) ==
  /\ last' = k
  /\ d' = IF op = "mul" THEN DMul(d, DUnit(k)) ELSE DDiv(d, DUnit(k))
  /\ cnt' = [cnt EXCEPT ![k] = IF op = "mul" THEN @ + 1 ELSE @ - 1]
  /\ steps' = Append(steps, <<op, UQ(k)>>)
Power(p, n) ==
  /\ d' = DPow(d, p) /\ cnt' = [k \in Atoms |-> cnt[k] * n] /\ last' = "" /\ steps' = Append(steps, <<"pow", p>>)
Undo(s) == LET n == Len(s) IN [i \in 1..n |-> LET x == s[n + 1 - i] IN IF x[1] = "mul" THEN <<"div", x[2]>> ELSE <<"mul", x[2]>>]
Step == /\ Len(steps) < MaxLen
        /\ (\E k \in Atoms, op \in Op : (op = "div" \/ k # "kilometer") /\ Times(k, op)) \/ (\E p \in {<<"2", 2>>, <<"-1", -1>>} : steps # <<>> /\ steps[Len(steps)][1] # "pow" /\ Power(p[1], p[2]))
        /\ IF Len(steps') >= 2 /\ (Tier = "thorough" \/ Len(steps') = 2 \/ \E k \in DOMAIN d' : IsCmp(k))
           THEN PrintT(ToJson([o |-> "cmp", f |-> "chain", a |-> <<Three>>,
                               steps |-> steps' \o (IF \E i \in DOMAIN steps' : steps'[i][1] = "pow" THEN <<>> ELSE Undo(steps'))]))
           ELSE TRUE
Look == /\ steps = <<>>
        /\ UNCHANGED <<d, cnt>> /\ last' = "look"
        /\ \E s \in Texts \cup Bad :
             /\ steps' = << <<"new", s>> >>
             /\ PrintT(ToJson([o |-> "cmp", f |-> "new", a |-> <<[k |-> "S", s |-> s]>>]))
             /\ s \in Texts => \A t \in Texts : PrintT(ToJson([o |-> "cmp", f |-> "pair", a |-> <<[k |-> "S", s |-> s], [k |-> "S", s |-> t]>>]))
Next == last # "look" /\ (Step \/ Look)
Spec == Init /\ [][Next]_vars

Live == last # "look"
Atomic == Live => DOMAIN d = {k \in Atoms : cnt[k] # 0} /\ \A k \in DOMAIN d : d[k] = ToString(cnt[k])
Worth == Live => /\ DEq(DBas(G0, d), DBas(G0, Expand(G0, d)))
                 /\ REq(DFac(G0, d), RMul(DFac(G0, Expand(G0, d)), CmpScale(G0, d)))
RECURSIVE Run(_, _, _)
Run(x, s, i) == IF i > Len(s) THEN x ELSE Run(IF s[i][1] = "mul" THEN DMul(x, DUnit(s[i][2].d[1][1])) ELSE DDiv(x, DUnit(s[i][2].d[1][1])), s, i + 1)
Undone == Live /\ (\A i \in DOMAIN steps : steps[i][1] # "pow") => DEq(Run(d, Undo(steps), 1), DOne)
Seq2(x) == CHOOSE s \in [1..Cardinality(DOMAIN x) -> DOMAIN x] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Ds == LET s == Seq2(d) IN [i \in DOMAIN s |-> <<s[i], d[s[i]]>>]
Parens == Live => \A t \in Plain(G0, Ds, FALSE) :
            /\ \A k \in DOMAIN d : IsCmp(k) => SHas(t, "(" \o CmpText(k) \o ")")
            /\ LET x == Evaluate(CatLabD, t) IN x.st = "ok" /\ DEq(x.d, Expand(G0, d)) /\ REq(x.s, CmpScale(G0, d))
\* names alone tell compound units apart
Distinct == Live => \A k \in Atoms, l \in Atoms : DEq(DDiv(DUnit(k), DUnit(l)), DOne) <=> k = l
Rejected == \A s \in Bad \ {"", "2", "m+m"} : Evaluate(CatLabD, s).st = "rej"
==============================================================================
