-------------------------------- MODULE Arr ---------------------------------
(* Shapes and C-order index arithmetic.  A shape is a sequence of naturals, flat
   positions count from 0, values are kept as flat sequences. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SizeFrom(_, _)
SizeFrom(sh, i) == IF i > Len(sh) THEN 1 ELSE sh[i] * SizeFrom(sh, i + 1)
Size(sh) == SizeFrom(sh, 1)
Stride(sh, i) == SizeFrom(sh, i + 1)
Coord(sh, f, i) == (f \div Stride(sh, i)) % sh[i]

RECURSIVE RavFrom(_, _, _)
RavFrom(sh, c, i) == IF i > Len(sh) THEN 0 ELSE c[i] * Stride(sh, i) + RavFrom(sh, c, i + 1)
Rav(sh, c) == RavFrom(sh, c, 1)
Unrav(sh, f) == [i \in DOMAIN sh |-> Coord(sh, f, i)]

NoShape == <<-1>>
Max2(a, b) == IF a > b THEN a ELSE b
Pad(sh, n) == [i \in 1..n |-> IF i <= n - Len(sh) THEN 1 ELSE sh[i - (n - Len(sh))]]
BShape(a, b) ==
  LET n == Max2(Len(a), Len(b))
      x == Pad(a, n)
      y == Pad(b, n)
  IN  IF a = NoShape \/ b = NoShape THEN NoShape
      ELSE IF \A i \in 1..n : x[i] = y[i] \/ x[i] = 1 \/ y[i] = 1
      THEN [i \in 1..n |-> IF x[i] = 1 THEN y[i] ELSE x[i]] ELSE NoShape

\* flat position in an operand of shape sh of flat position f of the broadcast shape out
RECURSIVE BPosFrom(_, _, _, _)
BPosFrom(sh, out, f, i) ==
  IF i > Len(sh) THEN 0
  ELSE (IF sh[i] = 1 THEN 0 ELSE Coord(out, f, i + Len(out) - Len(sh)) * Stride(sh, i)) + BPosFrom(sh, out, f, i + 1)
BPos(sh, out, f) == IF sh = out THEN f ELSE IF sh = <<>> THEN 0 ELSE BPosFrom(sh, out, f, 1)
\* operand value at flat position f of the result
BGet(x, out, f) == x.v[BPos(x.sh, out, f) + 1]

\* --- reductions along one axis (1-based), or over everything -----------------
NormAxis(a, nd) == IF a < 0 THEN a + nd + 1 ELSE a + 1        \* numpy axis -> 1-based
AxisOK(a, nd) == a >= -nd /\ a < nd
DropAxis(sh, ax) == [i \in 1..(Len(sh) - 1) |-> IF i < ax THEN sh[i] ELSE sh[i + 1]]
\* insert coordinate j on axis ax into the coordinates of flat position g of the reduced shape
AxisPos(sh, ax, g, j) ==
  LET r == DropAxis(sh, ax)
      c == [i \in DOMAIN sh |-> IF i = ax THEN j ELSE IF i < ax THEN Coord(r, g, i) ELSE Coord(r, g, i - 1)]
  IN  Rav(sh, c)
\* the values reduced into flat position g
AxisGroup(sh, v, ax, g) == [j \in 1..sh[ax] |-> v[AxisPos(sh, ax, g, j - 1) + 1]]

Pick(v, ix) == [i \in DOMAIN ix |-> v[ix[i] + 1]]
=============================================================================
