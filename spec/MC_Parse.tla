------------------------------- MODULE MC_Parse ------------------------------
(* The unit language.  Part "tokens": every string of up to Max tokens is a state,
   evaluated and emitted.  Part "trees": every expression tree of bounded depth is
   printed in several ways; the language must give it its structural meaning.     *)
EXTENDS Calc

CONSTANTS Tier
Toks == {"m", "s", "km", "2", "**", "*", "/", "(", ")"}
Max == IF Tier = "quick" THEN 4 ELSE 5
VARIABLES w, tree, ph
vars == <<w, tree, ph>>
Text(s) == SCat(s)

Leaf(n) == [op |-> "u", n |-> n]
Leaves == {Leaf("m"), Leaf("s"), Leaf("cc"), Leaf("percent")}
Pows == {"2", "-1", "0.5", "3"}
T1 == Leaves \cup {[op |-> "**", l |-> a, p |-> p] : a \in Leaves, p \in Pows}
T2 == {[op |-> o, l |-> a, r |-> b] : o \in {"*", "/"}, a \in T1, b \in T1}
T2q == {[op |-> o, l |-> a, r |-> b] : o \in {"*", "/"}, a \in Leaves, b \in Leaves}
T3 == {[op |-> o, l |-> a, r |-> b] : o \in {"*", "/"}, a \in T2q, b \in T2q} \cup {[op |-> "**", l |-> a, p |-> p] : a \in T2q, p \in Pows}
Trees == IF Tier = "quick" THEN T2 \cup {t \in T3 : t.op = "**"} ELSE T2 \cup T3
RECURSIVE Den(_), Show(_, _)
Den(t) == CASE t.op = "u" -> CatLabD[t.n]
            [] t.op = "*" -> DMul(Den(t.l), Den(t.r))
            [] t.op = "/" -> DDiv(Den(t.l), Den(t.r))
            [] t.op = "**" -> DPow(Den(t.l), t.p)
Par(t, v) == IF t.op = "u" THEN Show(t, v) ELSE "(" \o Show(t, v) \o ")"
Name(n, v) == IF v = 1 /\ n = "percent" THEN "%" ELSE IF v = 1 /\ n = "cc" THEN "cm^3" ELSE n
Show(t, v) == CASE t.op = "u" -> IF v = 1 /\ t.n = "cc" THEN "(cm^3)" ELSE Name(t.n, v)
                [] t.op = "**" -> Par(t.l, v) \o (IF v = 1 THEN "^" ELSE IF v = 2 THEN " ** " ELSE "**") \o t.p
                [] t.op = "*" -> Par(t.l, v) \o (IF v = 1 THEN "·" ELSE IF v = 2 THEN " * " ELSE "*") \o Par(t.r, v)
                [] t.op = "/" -> Par(t.l, v) \o (IF v = 2 THEN " / " ELSE "/") \o Par(t.r, v)

Emit(s) == PrintT(ToJson([o |-> "parse", s |-> s]))
Init == \/ ph = "tok" /\ w = <<>> /\ tree = Leaf("m")
        \/ ph = "tree0" /\ w = <<>> /\ tree \in T1 \cup (IF Tier = "quick" THEN {} ELSE T2)
Grow == /\ ph = "tok" /\ Len(w) < Max
        /\ \E t \in Toks : w' = Append(w, t)
        /\ Emit(Text(w'))
        /\ UNCHANGED <<tree, ph>>
Build == /\ ph = "tree0"
         /\ ph' = "tree" /\ w' = w
         /\ tree' \in Trees
         /\ "l" \in DOMAIN tree' /\ tree'.l = tree
         /\ \A v \in 0..2 : Emit(Show(tree', v))
Next == Grow \/ Build
Spec == Init /\ [][Next]_vars

cc3(d) == DMul([k \in DOMAIN d \ {"centimeter"} |-> d[k]], DOne)
\* the printed tree means what the tree means (cc is cm^3 only physically)
Meaning == \A v \in {0, 2} : LET x == Evaluate(CatLabD, Show(tree, v))
                             IN  x.st = "ok" /\ DEq(x.d, Den(tree)) /\ REq(x.s, "1")
Physical == LET x == Evaluate(CatLabD, Show(tree, 1))
            IN  x.st = "ok" /\ DEq(DBas(G0, x.d), DBas(G0, Den(tree))) /\ RClose(DFac(G0, x.d), DFac(G0, Den(tree)), "1e-12")
\* a juxtaposition or a dangling operator is never accepted
NoJuxtaposition == ph = "tok" => \A i \in 1..(Len(w) - 1) :
                     (w[i] \in {"*", "/", "**", "("} /\ (w[i+1] = ")" \/ (w[i+1] = "/" /\ w[i] # "/"))) => Evaluate(CatLabD, Text(w)).st = "rej"
Balanced == ph = "tok" /\ Cardinality({i \in DOMAIN w : w[i] = "("}) # Cardinality({i \in DOMAIN w : w[i] = ")"})
            => Evaluate(CatLabD, Text(w)).st = "rej" \/ w = <<>>
==============================================================================
