-------------------------------- MODULE Dims --------------------------------
(* Unit signatures ("dimensionalities"): finite maps from unit keys to non-zero
   rational exponents.  They form a free abelian group written multiplicatively. *)
EXTENDS Rat, Naturals, Sequences, FiniteSets

DOne == [k \in {} |-> "0"]

RZero(x) == RCloseS(x, "0", "1e-9", "1")
RSame(x, y) == RCloseS(x, y, "1e-12", "1")

DExp(d, k) == IF k \in DOMAIN d THEN d[k] ELSE "0"

\* a signature from a list of <<unit, exponent>> pairs
DFromSeq(s) ==
  LET ks == {s[i][1] : i \in DOMAIN s}
  IN  [k \in ks |-> RNorm(s[CHOOSE i \in DOMAIN s : s[i][1] = k][2])]

\* a logged list is well formed: every unit once, no zero exponent
DWell(s) == /\ \A i, j \in DOMAIN s : s[i][1] = s[j][1] => i = j
            /\ \A i \in DOMAIN s : ~RZero(s[i][2])

DUnit(k) == [x \in {k} |-> "1"]

DComb(a, b, Op(_, _)) ==
  LET all == DOMAIN a \cup DOMAIN b
      e   == [k \in all |-> Op(DExp(a, k), DExp(b, k))]
  IN  [k \in {x \in all : ~RZero(e[x])} |-> e[k]]

DMul(a, b) == DComb(a, b, RAdd)
DDiv(a, b) == DComb(a, b, RSub)
DPow(a, p) == IF RZero(p) THEN DOne ELSE [k \in DOMAIN a |-> RMul(a[k], p)]
DInv(a) == [k \in DOMAIN a |-> RNeg(a[k])]
DEq(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : RSame(a[k], b[k])
DNull(a) == DOMAIN a = {}

\* sum of the absolute exponents
RECURSIVE DAbsSum(_)
DAbsSum(a) == IF DOMAIN a = {} THEN "0"
              ELSE LET k == CHOOSE x \in DOMAIN a : TRUE
                   IN  RAdd(RAbs(a[k]), DAbsSum([x \in DOMAIN a \ {k} |-> a[x]]))
=============================================================================
