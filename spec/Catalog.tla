------------------------------- MODULE Catalog -------------------------------
(* The shipped catalogue of units and constants (C14, C15): what each label and
   each attribute denotes, its symbols, and its value in base units.            *)
EXTENDS Func

\* attribute name -> key, for units (package and units modules) and constants
AttrsOf(c) == UNION {{<<Cat[k].attrs[i], k>> : i \in DOMAIN Cat[k].attrs} : k \in DOMAIN c}
UAttr == TLCEval(LET p == AttrsOf(CatU) IN [a \in {x[1] : x \in p} |-> (CHOOSE x \in p : x[1] = a)[2]])
CAttr == TLCEval(LET p == AttrsOf(CatC) IN [a \in {x[1] : x \in p} |-> (CHOOSE x \in p : x[1] = a)[2]])

\* e.via: "label" (registry), "text" (quantity built from the label), "units" / "constants" (module attribute)
Denotes(e) == CASE e.via \in {"label", "text"} -> IF e.s \in DOMAIN CatLab THEN CatLab[e.s] ELSE ""
                [] e.via = "units" -> IF e.s \in DOMAIN UAttr THEN UAttr[e.s] ELSE ""
                [] e.via = "constants" -> IF e.s \in DOMAIN CAttr THEN CAttr[e.s] ELSE ""
KeyD(k) == IF k = "dimensionless" THEN DOne ELSE DUnit(k)
InBase(k) == LET d == Simp(G0, KeyD(k)) IN EQ(d, <<>>, <<C(CatFac[k], CatFac[k])>>, "1e-12")
CatChk(e) ==
  LET k == Denotes(e) IN
  IF k = "" THEN {}                       \* a name the catalogue does not list
  ELSE IF e.r.k = "E" THEN {"refused"}
  ELSE Clause("denotes", e.r.k = "Q" /\ e.r.sh = <<>> /\ REq(e.r.v[1], "1") /\ DEq(DOf(e.r), KeyD(k)))
       \cup (IF e.via = "text" THEN {} ELSE
             Clause("type", e.r.t = "U") \cup Clause("symbol", e.sym = Cat[k].sym) \cup Clause("unicode-symbol", e.usym = Cat[k].usym)
             \cup Clause("name", e.name = Cat[k].name))
       \cup {"simplified " \o c : c \in Judge(e.si, InBase(k))}
\* every name the catalogue lists is offered
NamesChk(e) == LET have == {e.l[i] : i \in DOMAIN e.l}
                   want == IF e.via = "label" THEN DOMAIN CatLab ELSE IF e.via = "units" THEN DOMAIN UAttr ELSE DOMAIN CAttr
               IN  {"missing " \o n : n \in want \ have}
CatOps == {"cat", "names"}
=============================================================================
