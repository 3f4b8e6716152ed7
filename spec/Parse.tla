------------------------------- MODULE Parse --------------------------------
(* The language of unit strings: which texts denote a unit expression, and which
   one.  A text is rewritten (^ to **, middle dot and letter.letter to *, % to
   percent, the words in / as), split into tokens character by character, and
   evaluated by recursive descent over the arithmetic expression grammar.

   Evaluate(lab, s) = [st, s, d, num]
     st   "ok" | "rej" (must be refused) | "may" (outside the specified language,
          either is fine) | "mayd" (refusing is fine, accepting means signature d)
     s    scale (rational), d signature, num: a plain number (no unit involved)      *)
EXTENDS Dims

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
IdStart == Letters \cup {"_"}
IdChar == IdStart \cup Digits
Blank == {" "}
Simple == {"+", "-", "*", "/", "(", ")", "%"}
Keywords == {"and","or","not","if","else","lambda","is","for","True","False","None","await","yield","from","import",
             "class","def","del","return","pass","with","while","try","raise","global","nonlocal","finally","except",
             "elif","continue","break","async","assert"}

\* letter '.' letter -> letter '*' letter
UndotF(s, i) == IF s[i] = "." /\ i > 1 /\ i < Len(s) /\ s[i-1] \in Letters /\ s[i+1] \in Letters THEN "*" ELSE s[i]
Undot(s) == [i \in DOMAIN s |-> UndotF(s, i)]

Prep(str) ==
  LET a == SReplace(SReplace(str, "^", "**"), "·", "*")
      b == SCat(Undot(SChars(a)))
      c == IF b = "" THEN "dimensionless" ELSE b
      d == SReplace(c, "%", "percent")
  IN  IF SLower(d) = "in" THEN "inch" ELSE d

\* --- tokens: <<kind, text>>, kind in {"id", "num", "op", "bad"}
RECURSIVE Span(_, _, _)
Span(s, i, cs) == IF i <= Len(s) /\ s[i] \in cs THEN Span(s, i + 1, cs) ELSE i   \* first position outside cs

Word(w) == IF w = "in" THEN "inch" ELSE IF w = "as" THEN "attosecond" ELSE w

\* end of a number starting at i (digits, fraction, exponent)
NumEnd(s, i) ==
  LET j == Span(s, i, Digits)
      k == IF j <= Len(s) /\ s[j] = "." THEN Span(s, j + 1, Digits) ELSE j
      m == IF k + 1 <= Len(s) /\ s[k] \in {"e", "E"} /\ s[k+1] \in Digits THEN Span(s, k + 1, Digits)
           ELSE IF k + 2 <= Len(s) /\ s[k] \in {"e", "E"} /\ s[k+1] \in {"+", "-"} /\ s[k+2] \in Digits
                THEN Span(s, k + 2, Digits) ELSE k
  IN  m

RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \in Blank THEN Lex(s, i + 1, acc)
  ELSE IF s[i] \in IdStart THEN
    LET j == Span(s, i, IdChar)
        w == SCat(SubSeq(s, i, j - 1))
    IN  \* an identifier may not be glued to a preceding number such as 0x1 or 1j
        IF i > 1 /\ s[i-1] \in Digits \cup {"."}
        THEN Append(acc, <<IF s[i] \in {"j","J","x","X","b","B","o","O","e","E","_","i","a"} THEN "odd" ELSE "bad", w>>)
        ELSE Lex(s, j, Append(acc, IF w \in Keywords THEN <<"bad", w>> ELSE <<"id", Word(w)>>))
  ELSE IF s[i] \in Digits \/ (s[i] = "." /\ i < Len(s) /\ s[i+1] \in Digits) THEN
    LET j == NumEnd(s, i)
        t == SubSeq(s, i, j - 1)
    IN  \* python rejects integers with a leading zero
        IF Len(t) > 1 /\ t[1] = "0" /\ \A q \in DOMAIN t : t[q] \in Digits THEN Append(acc, <<"odd", "0">>)
        ELSE Lex(s, j, Append(acc, <<"num", SCat(t)>>))
  ELSE IF s[i] = "*" /\ i < Len(s) /\ s[i+1] = "*" THEN Lex(s, i + 2, Append(acc, <<"op", "**">>))
  ELSE IF s[i] = "/" /\ i < Len(s) /\ s[i+1] = "/" THEN Lex(s, i + 2, Append(acc, <<"op", "//">>))
  ELSE IF s[i] \in Simple THEN Lex(s, i + 1, Append(acc, <<"op", s[i]>>))
  ELSE IF s[i] \in {"@", "~", "|", "&"} THEN Append(acc, <<"bad", s[i]>>)
  ELSE IF SLen(s[i]) = 1 /\ SLe(s[i], "~") /\ SLe("!", s[i]) THEN Append(acc, <<"bad", s[i]>>)   \* other ASCII
  ELSE Append(acc, <<"odd", s[i]>>)                                                       \* outside the language

\* --- evaluation ---------------------------------------------------------
Val(st, s, d, num) == [st |-> st, s |-> s, d |-> d, num |-> num]
Rej == Val("rej", "1", DOne, FALSE)
May == Val("may", "1", DOne, FALSE)
Worst(a, b) == IF "rej" \in {a.st, b.st} THEN Rej ELSE May

OpMul(a, b) == IF a.st = "ok" /\ b.st = "ok" THEN Val("ok", RMul(a.s, b.s), DMul(a.d, b.d), a.num /\ b.num) ELSE Worst(a, b)
OpDiv(a, b) == IF a.st = "ok" /\ b.st = "ok"
               THEN IF b.num /\ a.num /\ REq(b.s, "0") THEN Rej
                    ELSE IF REq(b.s, "0") THEN May
                    ELSE Val("ok", RDiv(a.s, b.s), DDiv(a.d, b.d), a.num /\ b.num)
               ELSE Worst(a, b)
OpPow(a, b) == IF a.st = "ok" /\ b.st = "ok"
               THEN IF ~DNull(b.d) THEN Rej                     \* an exponent may not carry units
                    ELSE IF RSign(a.s) # 1 \/ ~REq(RMul(b.s, "1000000"), RFloor(RMul(b.s, "1000000"))) \/ ~RLt(RAbs(b.s), "100")
                         THEN (IF REq(a.s, "1") THEN Val("ok", "1", DPow(a.d, b.s), FALSE) ELSE May)
                    ELSE Val("ok", RPow(a.s, b.s), DPow(a.d, b.s), a.num /\ b.num)
               ELSE Worst(a, b)
OpAdd(a, b, neg) == IF a.st = "ok" /\ b.st = "ok"
                    THEN IF a.num /\ b.num THEN Val("ok", IF neg THEN RSub(a.s, b.s) ELSE RAdd(a.s, b.s), DOne, TRUE)
                         ELSE May
                    ELSE Worst(a, b)
OpNeg(a) == IF a.st = "ok" THEN Val("ok", RNeg(a.s), a.d, a.num) ELSE a
OpOdd(a, b) == IF a.st = "ok" /\ b.st = "ok" THEN May ELSE Worst(a, b)    \* // and %

R(v, p) == [v |-> v, p |-> p]
IsOp(t, p, o) == p <= Len(t) /\ t[p] = <<"op", o>>

RECURSIVE Arith(_, _, _), ArithT(_, _, _), Term(_, _, _), TermT(_, _, _), Fact(_, _, _), Atom(_, _, _)
Arith(lab, t, p) == ArithT(lab, t, Term(lab, t, p))
ArithT(lab, t, x) ==
  IF IsOp(t, x.p, "+") THEN LET y == Term(lab, t, x.p + 1) IN ArithT(lab, t, R(OpAdd(x.v, y.v, FALSE), y.p))
  ELSE IF IsOp(t, x.p, "-") THEN LET y == Term(lab, t, x.p + 1) IN ArithT(lab, t, R(OpAdd(x.v, y.v, TRUE), y.p))
  ELSE x
Term(lab, t, p) == TermT(lab, t, Fact(lab, t, p))
TermT(lab, t, x) ==
  IF IsOp(t, x.p, "*") THEN LET y == Fact(lab, t, x.p + 1) IN TermT(lab, t, R(OpMul(x.v, y.v), y.p))
  ELSE IF IsOp(t, x.p, "/") THEN LET y == Fact(lab, t, x.p + 1) IN TermT(lab, t, R(OpDiv(x.v, y.v), y.p))
  ELSE IF IsOp(t, x.p, "//") \/ IsOp(t, x.p, "%")
       THEN LET y == Fact(lab, t, x.p + 1) IN TermT(lab, t, R(OpOdd(x.v, y.v), y.p))
  ELSE x
Fact(lab, t, p) ==
  IF IsOp(t, p, "+") THEN LET y == Fact(lab, t, p + 1) IN R(IF y.v.st = "ok" /\ ~y.v.num THEN May ELSE y.v, y.p)
  ELSE IF IsOp(t, p, "-") THEN LET y == Fact(lab, t, p + 1) IN R(OpNeg(y.v), y.p)
  ELSE LET x == Atom(lab, t, p)
       IN  IF IsOp(t, x.p, "**") THEN LET y == Fact(lab, t, x.p + 1) IN R(OpPow(x.v, y.v), y.p) ELSE x
Atom(lab, t, p) ==
  IF p > Len(t) THEN R(Rej, p)
  ELSE IF t[p][1] = "num" THEN R(Val("ok", RNorm(t[p][2]), DOne, TRUE), p + 1)
  ELSE IF t[p][1] = "id" THEN R(IF t[p][2] \in DOMAIN lab THEN Val("ok", "1", lab[t[p][2]], FALSE) ELSE Rej, p + 1)
  ELSE IF t[p] = <<"op", "(">> THEN LET x == Arith(lab, t, p + 1)
                                    IN  IF IsOp(t, x.p, ")") THEN R(x.v, x.p + 1) ELSE R(Rej, x.p)
  ELSE R(Rej, p)

\* lab: function from labels to signatures
Evaluate(lab, str) ==
  LET t == Lex(SChars(Prep(str)), 1, <<>>)
  IN  IF t = <<>> THEN Rej
      ELSE IF t[Len(t)][1] = "bad" \/ \E i \in DOMAIN t : t[i][1] = "bad" THEN Rej
      ELSE IF \E i \in DOMAIN t : t[i][1] = "odd" THEN May
      ELSE IF SStarts(str, " ") THEN May
      ELSE LET x == Arith(lab, t, 1) IN IF x.p = Len(t) + 1 THEN x.v ELSE Rej

HasNum(str) == LET t == Lex(SChars(Prep(str)), 1, <<>>)
               IN  \E i \in DOMAIN t : t[i][1] = "num" /\ t[i][2] # "1" /\ ~(i > 1 /\ t[i-1] = <<"op", "**">>)

\* what a string must do when used as a unit
UnitText(lab, str) ==
  LET x == Evaluate(lab, str)
  IN  IF x.st # "ok" THEN x
      ELSE IF x.num THEN Rej                                  \* a bare number is no unit
      ELSE IF REq(x.s, "1") THEN (IF HasNum(str) THEN Val("mayd", "1", x.d, FALSE) ELSE x)
      ELSE IF RClose(x.s, "1", "1e-12") THEN May
      ELSE Rej
=============================================================================
