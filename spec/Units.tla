------------------------------- MODULE Units --------------------------------
(* The unit system: the shipped catalogue (committed reference data, spec/data),
   units defined by the user during a history, compound units "cmp:<expression>",
   default units, and the conversion factors all of them imply.

   G = [tab, lab, dflt]: tab  user units, key -> [f, b, sym, usym]
                         lab  user labels, label -> unit key
                         dflt base dimension -> signature used by simplification  *)
EXTENDS Parse, Json, IOUtils, TLC

CatU == JsonDeserialize(IOEnv.VSPEC \o "/data/units.json")
CatC == JsonDeserialize(IOEnv.VSPEC \o "/data/constants.json")
Cat == CatU @@ CatC

CatFac == TLCEval([k \in DOMAIN Cat |-> RNorm(Cat[k].f)])
CatBas == TLCEval([k \in DOMAIN Cat |-> DFromSeq(Cat[k].b)])

\* labels of the shipped units (symbols, names, aliases) -> unit key
CatLab == JsonDeserialize(IOEnv.VSPEC \o "/data/labels.json")
CatLabD == TLCEval([l \in DOMAIN CatLab |-> IF CatLab[l] = "dimensionless" THEN DOne ELSE DUnit(CatLab[l])])

Bases == {"kilogram", "meter", "second", "ampere", "candela", "mole", "Kelvin", "bit"}
DfltSI == [b \in Bases |-> DUnit(b)]
G0 == [tab |-> DOne, lab |-> DOne, dflt |-> DfltSI]

LabD(G) == IF DOMAIN G.lab = {} THEN CatLabD
           ELSE [l \in DOMAIN G.lab |-> DUnit(G.lab[l])] @@ CatLabD
KeyOfLabel(G, l) == IF l \in DOMAIN CatLab THEN CatLab[l] ELSE IF l \in DOMAIN G.lab THEN G.lab[l] ELSE ""

IsCmp(k) == SStarts(k, "cmp:")
CmpText(k) == SCat(SubSeq(SChars(k), 5, SLen(k)))
KnownUnit(G, k) == k \in DOMAIN Cat \/ k \in DOMAIN G.tab \/ (IsCmp(k) /\ UnitText(LabD(G), CmpText(k)).st = "ok")

RECURSIVE UFac(_, _), DFac(_, _), UBas(_, _), DBas(_, _), DFacOver(_, _, _), DBasOver(_, _, _)
UFac(G, k) == IF k \in DOMAIN CatFac THEN CatFac[k]
              ELSE IF k \in DOMAIN G.tab THEN G.tab[k].f
              ELSE LET x == Evaluate(LabD(G), CmpText(k)) IN RMul(x.s, DFac(G, x.d))
UBas(G, k) == IF k \in DOMAIN CatBas THEN CatBas[k]
              ELSE IF k \in DOMAIN G.tab THEN G.tab[k].b
              ELSE DBas(G, Evaluate(LabD(G), CmpText(k)).d)
\* SI factor and base dimensions of a signature
DFacOver(G, d, ks) == IF ks = {} THEN "1"
                      ELSE LET k == CHOOSE x \in ks : TRUE
                           IN  RMul(RPow(UFac(G, k), d[k]), DFacOver(G, d, ks \ {k}))
DFac(G, d) == DFacOver(G, d, DOMAIN d)
DBasOver(G, d, ks) == IF ks = {} THEN DOne
                      ELSE LET k == CHOOSE x \in ks : TRUE
                           IN  DMul(DPow(UBas(G, k), d[k]), DBasOver(G, d, ks \ {k}))
DBas(G, d) == DBasOver(G, d, DOMAIN d)

Compat(G, a, b) == DEq(a, b) \/ DEq(DBas(G, a), DBas(G, b))
\* magnitude in a -> magnitude in b
Conv(G, a, b) == IF DEq(a, b) THEN "1" ELSE RDiv(DFac(G, a), DFac(G, b))

\* the signature simplification must produce
RECURSIVE SimpOver(_, _, _)
SimpOver(G, bd, ks) == IF ks = {} THEN DOne
                       ELSE LET k == CHOOSE x \in ks : TRUE
                                u == IF k \in DOMAIN G.dflt THEN G.dflt[k] ELSE DUnit(k)
                            IN  DMul(DPow(u, bd[k]), SimpOver(G, bd, ks \ {k}))
Simp(G, d) == LET bd == DBas(G, d) IN SimpOver(G, bd, DOMAIN bd)

\* definitions
UDef(f, b, sym, usym) == [f |-> f, b |-> b, sym |-> sym, usym |-> usym]
Sym(G, k) == IF k \in DOMAIN Cat THEN Cat[k].sym ELSE IF k \in DOMAIN G.tab THEN G.tab[k].sym ELSE "(" \o CmpText(k) \o ")"
USym(G, k) == IF k \in DOMAIN Cat THEN Cat[k].usym ELSE IF k \in DOMAIN G.tab THEN G.tab[k].usym ELSE "(" \o CmpText(k) \o ")"
=============================================================================
