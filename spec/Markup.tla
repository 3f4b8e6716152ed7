------------------------------- MODULE Markup --------------------------------
(* How unit signatures and quantities are shown, and unit strings read (C07 C09).
   The order of factors within numerator and denominator is left open; that equal
   signatures print identically is a clause of its own ("text2").                *)
EXTENDS Values

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)

\* --- character-level transformations ------------------------------------------
SupOf == [c \in Digits |-> CASE c = "0" -> "⁰" [] c = "1" -> "¹" [] c = "2" -> "²" [] c = "3" -> "³" [] c = "4" -> "⁴"
                             [] c = "5" -> "⁵" [] c = "6" -> "⁶" [] c = "7" -> "⁷" [] c = "8" -> "⁸" [] c = "9" -> "⁹"]
Dbl(s, i) == i + 1 < Len(s) /\ s[i] = "*" /\ s[i+1] = "*" /\ s[i+2] \in Digits
ExpEnd(s, i) ==    \* end of an exponent "12", "0.5", "1e-05" starting at i
  LET j == Span(s, i, Digits \cup {"."})
  IN  IF j + 1 <= Len(s) /\ s[j] = "e" /\ s[j+1] \in Digits THEN Span(s, j + 1, Digits)
      ELSE IF j + 2 <= Len(s) /\ s[j] = "e" /\ s[j+1] \in {"+", "-"} /\ s[j+2] \in Digits THEN Span(s, j + 2, Digits)
      ELSE j
IntExp(s, i) == LET j == Span(s, i, Digits) IN j > i /\ ~(j <= Len(s) /\ s[j] \in {".", "e"})
\* integer exponents as superscripts
RECURSIVE SupFrom(_, _)
SupFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Dbl(s, i) /\ IntExp(s, i + 2)
       THEN LET j == Span(s, i + 2, Digits) IN [q \in 1..(j - i - 2) |-> SupOf[s[i + 1 + q]]] \o SupFrom(s, j)
  ELSE <<s[i]>> \o SupFrom(s, i + 1)
Sup(t) == SCat(SupFrom(SChars(t), 1))
Uni(t) == SReplace(SReplace(Sup(t), "**", "^"), "*", "·")
\* exponents marked up, products replaced
RECURSIVE ExpFrom(_, _, _, _, _)
ExpFrom(s, i, open, close, mult) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Dbl(s, i) THEN LET j == ExpEnd(s, i + 2)
                         IN  <<open>> \o SubSeq(s, i + 2, j - 1) \o <<close>> \o ExpFrom(s, j, open, close, mult)
  ELSE IF s[i] = "*" THEN <<mult>> \o ExpFrom(s, i + 1, open, close, mult)
  ELSE <<s[i]>> \o ExpFrom(s, i + 1, open, close, mult)
Tex(t) == SCat(ExpFrom(SChars(t), 1, "^{", "}", "{\\cdot}"))
Htm(t) == SCat(ExpFrom(SChars(t), 1, "<sup>", "</sup>", "&sdot;"))

\* --- signatures -----------------------------------------------------------------
IsNegTxt(e) == SStarts(e, "-")
AbsTxt(e) == IF IsNegTxt(e) THEN SCat(Tail(SChars(e))) ELSE e
SymOf(G, k, uni) == IF uni THEN (IF IsCmp(k) THEN "(" \o Sup(CmpText(k)) \o ")" ELSE USym(G, k)) ELSE Sym(G, k)
FTxt(G, p, uni) == IF AbsTxt(p[2]) = "1" THEN SymOf(G, p[1], uni) ELSE SymOf(G, p[1], uni) \o "**" \o AbsTxt(p[2])
Side(ds, neg) == SelectSeq(ds, LAMBDA p : IsNegTxt(p[2]) = neg)
Orders(s, G, uni) == {Join([i \in DOMAIN s |-> FTxt(G, s[f[i]], uni)], "*") : f \in Permutations(DOMAIN s)}
NumTxts(G, ds, uni) == LET n == Side(ds, FALSE) IN IF n = <<>> THEN {"1"} ELSE Orders(n, G, uni)
DenTxts(G, ds, uni) == LET n == Side(ds, TRUE)
                       IN  IF Len(n) = 1 THEN Orders(n, G, uni) ELSE {"(" \o t \o ")" : t \in Orders(n, G, uni)}
Plain(G, ds, uni) ==
  IF ds = <<>> THEN {"dimensionless"}
  ELSE IF Side(ds, TRUE) = <<>> THEN NumTxts(G, ds, uni)
  ELSE {n \o "/" \o d : n \in NumTxts(G, ds, uni), d \in DenTxts(G, ds, uni)}
TexBodies(G, ds, uni) ==
  {Tex(t) : t \in Plain(G, ds, uni)} \cup
  (IF ds = <<>> \/ Side(ds, TRUE) = <<>> THEN {}
   ELSE {"\\frac{" \o Tex(n) \o "}{" \o Tex(d) \o "}" : n \in NumTxts(G, ds, uni), d \in DenTxts(G, ds, uni)})
Latex(G, ds, uni) == {"$\\mathrm{" \o t \o "}$" : t \in TexBodies(G, ds, uni)}
DTexts(G, f, ds, uni) ==
  CASE f = "string" -> Plain(G, ds, uni)
    [] f = "unicode" -> {Uni(t) : t \in Plain(G, ds, uni)}
    [] f = "latex" -> Latex(G, ds, uni)
    [] f = "html" -> {Htm(t) : t \in Plain(G, ds, uni)}
    [] f = "dstr" -> IF uni THEN {Uni(t) : t \in Plain(G, ds, uni)} ELSE Plain(G, ds, uni)
Shown(G, ds, uni) == DTexts(G, "dstr", ds, uni)

NameOf(k) == IF SStarts(k, "const:") THEN SCat(SubSeq(SChars(k), 7, SLen(k)))
             ELSE IF IsCmp(k) THEN "(" \o CmpText(k) \o ")" ELSE k
\* text of a quantity; m is the text of its magnitude (input)
QTexts(G, f, x, uni, e) ==
  LET ds == x.d IN
  CASE x.t = "U" /\ f = "str" ->
         LET k == IF ds = <<>> THEN "dimensionless" ELSE ds[1][1]
             nm == IF uni /\ IsCmp(k) THEN SymOf(G, k, TRUE) ELSE NameOf(k)
         IN  {IF ~IsCmp(k) /\ SymOf(G, k, TRUE) # nm THEN "1 " \o SymOf(G, k, uni) \o " (" \o nm \o ")" ELSE "1 " \o nm}
    [] x.t = "Q" /\ f = "str" -> {e.m \o " " \o t : t \in Shown(G, ds, uni)}
    [] x.t = "Q" /\ f = "repr" -> {e.mr \o " * " \o t : t \in Plain(G, ds, uni)}
    [] x.t \in {"Q", "X"} /\ f = "format" -> {e.mf \o " " \o t : t \in Shown(G, ds, uni)}
    [] x.t = "X" /\ f = "str" -> {e.m \o " " \o t \o "\n" \o (IF uni THEN "±" ELSE "+/-") \o e.um \o " " \o t2 \o
                                    (IF uni THEN " (1σ)" ELSE " (1 sigma)")
                                  : t \in Shown(G, ds, uni), t2 \in Shown(G, x.ud, uni)}
    [] OTHER -> {}

\* texts whose units parse back to the same signature: catalogue units whose symbol names them
Nameable(G, ds) == \A i \in DOMAIN ds : LET k == ds[i][1] IN
                     (k \in DOMAIN CatU \/ k \in DOMAIN G.tab) /\ KeyOfLabel(G, Sym(G, k)) = k /\ ~SHas(Sym(G, k), "/")
ParseBack(G, e) ==
  IF ~Has(e, "rp") THEN {}
  ELSE LET ds == e.a[1].d
           tg == UnitText(LabD(G), e.r.s)
       IN  IF Nameable(G, ds) THEN (IF e.rp.k # "Q" THEN {"not-readable"} ELSE Clause("read-back", DEq(DOf(e.rp), DOf(e.a[1]))))
           ELSE IF tg.st = "ok" THEN Clause("read-back", e.rp.k = "Q" /\ DEq(DOf(e.rp), tg.d))
           ELSE {}

TextChk(G, e) ==
  IF e.o = "text2"
  THEN LET same == DEq(DOf(e.a[1]), DOf(e.a[2]))
       IN  IF e.r.k = "E" \/ e.r2.k = "E" THEN {"refused"}
           ELSE Clause("same-text", same => e.r.s = e.r2.s)
                \cup Clause("different-text", ~same /\ Nameable(G, e.a[1].d) /\ Nameable(G, e.a[2].d) => e.r.s # e.r2.s)
                \cup Untouched(e)
  ELSE IF e.r.k # "S" THEN {"refused"}
  ELSE LET x == e.a[1]
           ok == IF x.k = "D" THEN DTexts(G, e.f, x.d, e.uni) ELSE QTexts(G, e.f, x, e.uni, e)
           slashed == e.f = "latex" /\ \E i \in DOMAIN x.d : ~IsCmp(x.d[i][1]) /\ SHas(SymOf(G, x.d[i][1], e.uni), "/")
       IN  Clause("text", slashed \/ e.r.s \in ok) \cup ParseBack(G, e) \cup Untouched(e)

\* --- reading ---------------------------------------------------------------------
\* a unit string used in various places; whatever happens, nothing is executed
ParseChk(G, e) ==
  LET tg == UnitText(LabD(G), e.s)
      ev == Evaluate(LabD(G), e.s)
      q == e.a[1]
      res ==
        CASE e.f = "registry" ->
               IF ev.st = "rej" THEN Judge(e.r, EMust(""))
               ELSE IF ev.st # "ok" \/ ev.num THEN {}
               ELSE IF e.r.k = "E" THEN {"refused"}
               ELSE IF e.r.k # "Q" THEN {"kind"}
               ELSE Clause("units", DWell(e.r.d) /\ DEq(DOf(e.r), ev.d))
                    \cup Clause("value", e.r.sh = <<>> /\ RClose(e.r.v[1], ev.s, "1e-11"))
          [] e.f = "quantity" ->
               IF tg.st = "rej" THEN Judge(e.r, EMust(""))
               ELSE IF tg.st = "may" THEN {}
               ELSE LET x == EQ(tg.d, q.sh, [i \in DOMAIN q.v |-> X(q.v[i])], "0")
                    IN  Judge(e.r, IF tg.st = "mayd" THEN EMay(x) ELSE x)
          [] e.f \in {"rescale", "setunits"} ->
               LET x == EQ(tg.d, q.sh, [i \in DOMAIN q.v |-> LET w == RMul(q.v[i], Conv(G, DOf(q), tg.d)) IN C(w, w)], "1e-11")
               IN  IF tg.st = "rej" THEN Judge(e.r, EMust(""))
                   ELSE IF tg.st = "may" THEN {}
                   ELSE IF ~Compat(G, DOf(q), tg.d) THEN Judge(e.r, EMust("ValueError"))
                   ELSE Judge(e.r, IF tg.st = "mayd" THEN EMay(x) ELSE x)
          [] e.f = "compound" ->
               IF ev.st = "rej" THEN Judge(e.r, EMust(""))
               ELSE IF ev.st # "ok" \/ ev.num THEN {}
               ELSE LET d == DUnit("cmp:" \o e.s)
                    IN  IF e.r.k = "E" THEN {"refused"}
                        ELSE IF e.r.k # "Q" THEN {"kind"} ELSE Clause("units", e.r.t = "U" /\ DEq(DOf(e.r), d))
  IN  res \cup Clause("executed", ~e.exec)
          \cup (IF e.f = "setunits" /\ e.r.k # "E" THEN {} ELSE Untouched(e))

MarkupOps == {"text", "text2", "parse"}
MarkupChk(G, e) == IF e.o = "parse" THEN ParseChk(G, e) ELSE TextChk(G, e)
==============================================================================
