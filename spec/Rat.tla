-------------------------------- MODULE Rat --------------------------------
(* Exact arithmetic on numbers written as text, plus a few text helpers.
   TLC evaluates these operators through the Java override spec/java/Rat.java
   (TLC integers are 32 bit and there are no reals).  A number is "p", "p/q",
   any decimal literal, "nan", "inf", "-inf", or "re|im" for a complex value;
   results are canonical (lowest terms), so "=" on results is exact equality.
   RatTest.tla checks the override against TLC's own integers. *)
EXTENDS Naturals, Sequences

RNorm(a) == CHOOSE x \in {} : TRUE
RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RDiv(a, b) == CHOOSE x \in {} : TRUE        \* IEEE: x/0 = inf, 0/0 = nan
RNeg(a) == CHOOSE x \in {} : TRUE
RAbs(a) == CHOOSE x \in {} : TRUE
RRe(a) == CHOOSE x \in {} : TRUE
RIm(a) == CHOOSE x \in {} : TRUE
RMkC(a, b) == CHOOSE x \in {} : TRUE
RConj(a) == CHOOSE x \in {} : TRUE
RPow(a, p) == CHOOSE x \in {} : TRUE        \* exact for integer p, 40 digits for halves
RLt(a, b) == CHOOSE x \in {} : TRUE         \* false when a nan is involved
RLe(a, b) == CHOOSE x \in {} : TRUE
REq(a, b) == CHOOSE x \in {} : TRUE
RIsNan(a) == CHOOSE x \in {} : TRUE
RIsFinite(a) == CHOOSE x \in {} : TRUE
RIsInt(a) == CHOOSE x \in {} : TRUE
RSign(a) == CHOOSE x \in {} : TRUE          \* -1, 0, 1
RClose(a, b, rel) == CHOOSE x \in {} : TRUE         \* |a-b| <= rel*max(|a|,|b|)
RCloseS(a, b, rel, scale) == CHOOSE x \in {} : TRUE \* |a-b| <= rel*max(|a|,|b|,|scale|)
RFloor(a) == CHOOSE x \in {} : TRUE
RCeil(a) == CHOOSE x \in {} : TRUE
RTrunc(a) == CHOOSE x \in {} : TRUE
RRint(a) == CHOOSE x \in {} : TRUE          \* half to even
RMod(a, b) == CHOOSE x \in {} : TRUE        \* sign of b
RModOK(r, a, b, rel) == CHOOSE x \in {} : TRUE      \* r is a mod b up to rounding
RFmodOK(r, a, b, rel) == CHOOSE x \in {} : TRUE     \* truncated remainder
RFloorDivOK(r, a, b, rel) == CHOOSE x \in {} : TRUE \* r is floor(a/b) up to rounding
RSum(s) == CHOOSE x \in {} : TRUE
RProd(s) == CHOOSE x \in {} : TRUE
RDot(s, t) == CHOOSE x \in {} : TRUE
RMaxAbs(s) == CHOOSE x \in {} : TRUE
RFun(f, a) == CHOOSE x \in {} : TRUE        \* "sin", "log", ... in double precision
RFun2(f, a, b) == CHOOSE x \in {} : TRUE    \* "arctan2", "hypot", "logaddexp", ...

SChars(s) == CHOOSE x \in {} : TRUE         \* text -> sequence of one-character strings
SCat(s) == CHOOSE x \in {} : TRUE           \* sequence of strings -> text
SLen(s) == CHOOSE x \in {} : TRUE
SReplace(s, a, b) == CHOOSE x \in {} : TRUE
SLower(s) == CHOOSE x \in {} : TRUE
SLe(s, t) == CHOOSE x \in {} : TRUE         \* code-point order
SStarts(s, p) == CHOOSE x \in {} : TRUE
SHas(s, p) == CHOOSE x \in {} : TRUE
=============================================================================
